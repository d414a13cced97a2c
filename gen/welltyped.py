"""Seeded generator of pairs of programs: a well-typed use of the library, and the same program with a single fault that its types forbid.

A case is a list of choices; `render` turns it into (kind, common declarations, good statement, bad statement). Choices beyond the
end of the list are 0, which stands for the simplest alternative."""
import random

HEAD = """#include <array>
#include <cstdint>
#include <iterator>
#include <list>
#include <string>
#include <utility>
#include <vector>
#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/format.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
#include <upd/tuple.hpp>
#include <upd/type.hpp>
#include <upd/typelist.hpp>
#include <upd/unevaluated.hpp>
using uchar = unsigned char;
using llong = long long;
using ushort_ = unsigned short;
"""

INTS = ["int", "char", "uchar", "std::uint16_t", "std::int16_t", "std::uint32_t", "std::int8_t", "llong", "std::uint64_t", "ushort_", "short", "long", "unsigned"]
ENDIANS = ["little_endian", "big_endian"]
MODES = ["twos_complement", "signed_magnitude", "ones_complement", "offset_binary"]
ENUM_E = ["LITTLE", "BIG"]
ENUM_M = ["TWOS_COMPLEMENT", "SIGNED_MAGNITUDE", "ONES_COMPLEMENT", "OFFSET_BINARY"]


class Choices:
    """A source of choices: replays `given`, then draws from `r` (or gives 0)"""

    def __init__(self, given=(), r=None):
        self.given, self.r, self.made = list(given), r, []

    def below(self, n):
        i = len(self.made)
        if i < len(self.given):
            x = min(self.given[i], n - 1)
        else:
            x = self.r.randrange(n) if self.r else 0
        self.made.append(x)
        return x

    def of(self, options):
        return options[self.below(len(options))]

    def some(self, f, lo, hi):
        return [f() for _ in range(lo + self.below(hi - lo + 1))]


class Builder:
    def __init__(self, c, std):
        self.c, self.std = c, std
        self.decl = []
        self.names = 0

    def name(self, p):
        self.names += 1
        return f"{p}{self.names}"

    def scalar(self):
        return self.c.of(INTS)

    def type(self):
        t = self.scalar()
        return f"std::array<{t}, {self.c.of([2, 1, 3, 5])}>" if self.c.below(4) == 3 else t

    def value(self, t):
        return t + "{}"

    def nothrow(self):
        return "noexcept " if self.c.below(4) == 3 else ""

    def function(self, params=None, ret=None):
        """Declare a function or a functor; return (name, params, ret)"""
        if params is None:
            params = self.c.some(self.type, 0, 3)
        if ret is None:
            ret = "void" if self.c.below(3) == 2 else self.type()
        n = self.name("f")
        form = self.c.below(4)
        ps = [("const " + p + " &" if self.c.below(4) == 3 else p) for p in params]
        body = "{ return " + (self.value(ret) if ret != "void" else "") + "; }"
        body = self.nothrow() + body
        if form < 2:
            self.decl.append(f"{ret} {n}({', '.join(ps)}) {body}")
        elif form == 2:
            self.decl.append(f"struct S_{n} {{ {ret} operator()({', '.join(ps)}) const {body} }} {n};")
        else:
            self.decl.append(f"struct N_{n} {{ static {ret} call({', '.join(ps)}) {body} }};")
            n = f"N_{n}::call"
        return n, params, ret, ps

    def format(self):
        return self.c.below(2), self.c.below(4)

    def format_args(self, f=None):
        e, m = f or self.format()
        return f"upd::{ENDIANS[e]}, upd::{MODES[m]}"

    def keyring(self, lo=1, hi=4, functions=None):
        fns = functions or self.c.some(self.function, lo, hi)
        k = self.name("kr")
        new = self.std >= 17 and self.c.below(2)
        fmt = self.format_args()
        if new:
            self.decl.append(f"constexpr upd::keyring {k}{{upd::flist<{', '.join(f[0] for f in fns)}>, {fmt}}};")
        else:
            self.decl.append(f"constexpr auto {k} = upd::make_keyring(upd::make_flist({', '.join(f'UPD_CTREF({f[0]})' for f in fns)}), {fmt});")
        return k, fns

    def get(self, k, f):
        if self.std >= 17 and self.c.below(2):
            return f"{k}.get<{f}>()"
        return f"{k}.get(UPD_CTREF({f}))"

    def tuple_type(self, types, view=None):
        e, m = self.format()
        t = f"upd::endianess::{ENUM_E[e]}, upd::signed_mode::{ENUM_M[m]}{''.join(', ' + x for x in types)}"
        return f"upd::tuple<{t}>" if view is None else f"upd::tuple_view<{view}, {t}>"


# --- the kinds of faults: each gives (good, bad), statements of a function body ---


def wrong_value(b, t):
    """An expression that does not convert to `t`"""
    c = b.c
    options = ["std::string{}", "Plain{}", "std::vector<int>{}"]
    b.decl.append("struct Plain {};")
    if t.startswith("std::array"):
        inner, n = t[len("std::array<"):-1].rsplit(", ", 1)
        options += [f"std::array<{inner}, {int(n) + 1}>{{}}", "3", f"std::array<{inner}, {int(n) - 1}>{{}}"]
    else:
        options += ["std::array<int, 1>{}", "std::array<" + t + ", 2>{}"]
        if t not in ("bool",):
            options += ["\"text\"", "nullptr"]
    return c.of(options)


def key_count(b):
    k, fns = b.keyring()
    f, params, _, _ = b.c.of(fns)
    args = [b.value(p) for p in params]
    key = b.get(k, f)
    bad = args[:-1] if args and b.c.below(2) else args + [b.c.of(["0", "1", "'a'"])]
    use = b.c.of(["(void){key}({args});", "{key}({args}).write_to([](upd::byte_t) {{}});", "auto x = {key}; x({args});"])
    return use.format(key=key, args=", ".join(args)), use.format(key=key, args=", ".join(bad))


def key_type(b):
    f = b.function(params=b.c.some(b.type, 1, 3))
    k, _ = b.keyring(functions=[f] + b.c.some(b.function, 0, 2))
    params = f[1]
    args = [b.value(p) for p in params]
    j = b.c.below(len(args))
    bad = list(args)
    bad[j] = wrong_value(b, params[j])
    key = b.get(k, f[0])
    use = b.c.of(["{key}({args});", "{key}({args}).write_to([](upd::byte_t) {{}});"])
    return use.format(key=key, args=", ".join(args)), use.format(key=key, args=", ".join(bad))


def key_missing(b):
    k, fns = b.keyring()
    f = b.c.of(fns)
    # The stranger may have the very same signature
    other = b.function(params=f[1], ret=f[2]) if b.c.below(3) < 2 else b.function()
    use = b.c.of(["(void){};", "auto k = {}; (void)k;", "using key = decltype({}); (void)sizeof(key);"])
    notation = b.std >= 17 and b.c.below(2)
    get = (lambda n: f"{k}.get<{n}>()") if notation else (lambda n: f"{k}.get(UPD_CTREF({n}))")
    return use.format(get(f[0])), use.format(get(other[0]))


def dispatcher(b, k, feature=None):
    n = b.name("d")
    feature = feature or b.c.of(["any_callback", "weak_reference"])
    kind = b.c.below(3)
    make = ["make_double_buffered_dispatcher", "make_single_buffered_dispatcher", "make_dispatcher"][kind]
    if b.std >= 17 and b.c.below(2):
        b.decl.append(f"{['upd::double_buffered_dispatcher', 'upd::single_buffered_dispatcher'][kind] if kind < 2 else 'upd::dispatcher'} "
                      f"{n}{{{k}, upd::policy::{feature}}};")
    else:
        b.decl.append(f"decltype(upd::{make}({k}, upd::policy::{feature})) {n}{{}};")
    return n, kind


def other_signature(b, f):
    """Parameters and result that differ from those of `f`"""
    params, ret = list(f[1]), f[2]
    how = b.c.below(5)

    def different(t):
        return b.c.of([x for x in ["int", "char", "std::uint16_t", "std::int64_t", "std::array<int, 2>", "std::array<char, 7>"] if not same(x, t)])

    def same(x, t):
        groups = [["int", "std::int32_t"], ["std::uint16_t", "ushort_"], ["std::int64_t", "llong", "long"], ["char"]]
        return x == t or any(x in g and t in g for g in groups)

    if how == 4 and params:  # only the passing differs
        j = b.c.below(len(params))
        params[j] = "=" + (params[j] if f[3][j] != params[j] else b.c.of(["const " + params[j] + " &", params[j] + " &"]))
        return params, ret
    if how == 0 or how == 1 and not params:
        return params + [b.scalar()], ret
    if how == 1:
        return params[:-1], ret
    if how == 2 and params:
        j = b.c.below(len(params))
        params[j] = different(params[j])
        return params, ret
    return params, different(ret) if ret == "void" or b.c.below(2) else "void"


def replacement(b, f, params, ret, dynamic):
    """A statement that replaces action @i by a callable of the given signature (same qualifiers of parameters as `f` when equal)"""
    ps = [q if q in (p, f"const {p} &") else p.lstrip("=") for p, q in zip(params, f[3] + [""] * len(params))]
    body = "{ return " + (b.value(ret) if ret != "void" else "") + "; }"
    nx = b.nothrow()
    if dynamic:
        how = b.c.below(3) if not hasattr(b, "how") else b.how
        b.how = how
        if how == 0:
            return f"@d.replace<@i>([]({', '.join(ps)}) {nx}-> {ret} {body});"
        n = b.name("r")
        if how == 1:
            b.decl.append(f"struct R_{n} {{ int state; {ret} operator()({', '.join(ps)}) {nx}{body} }};")
            return f"@d.replace<@i>(R_{n}{{}});"
        b.decl.append(f"{ret} {n}({', '.join(ps)}) {nx}{body}")
        return f"@d.replace<@i>({n});"
    n = b.name("r")
    b.decl.append(f"{ret} {n}({', '.join(ps)}) {nx}{body}")
    if not hasattr(b, "how"):
        b.how = b.std >= 17 and b.c.below(2)
    return f"@d.replace<@i, {n}>();" if b.how else f"@d.replace<@i>(UPD_CTREF({n}));"


def subst(s, d, i):
    return s.replace("@d", d).replace("@i", str(i))


def replace_signature(b):
    k, fns = b.keyring()
    i = b.c.below(len(fns))
    feature = b.c.of(["any_callback", "weak_reference"])
    d, kind = dispatcher(b, k, feature)
    dynamic = feature == "any_callback" and b.c.below(2)
    good = replacement(b, fns[i], fns[i][1], fns[i][2], dynamic)
    p, r = other_signature(b, fns[i])
    bad = replacement(b, fns[i], p, r, dynamic)
    return subst(good, d, i), subst(bad, d, i)


def replace_index(b):
    f = b.function()
    k, fns = b.keyring(functions=[f] + [b.function(params=f[1], ret=f[2]) for _ in range(b.c.below(4))])
    i = b.c.below(len(fns))
    feature = b.c.of(["any_callback", "weak_reference"])
    d, kind = dispatcher(b, k, feature)
    good = replacement(b, fns[i], fns[i][1], fns[i][2], feature == "any_callback" and b.c.below(2))
    return subst(good, d, i), subst(good, d, b.c.of([len(fns), len(fns) + 1, 254, 255]))


def replace_stateful(b):
    """Storing a callable needs a dispatcher of any callback"""
    k, fns = b.keyring()
    i = b.c.below(len(fns))
    save = len(b.c.made)
    good = replacement(b, fns[i], fns[i][1], fns[i][2], True)
    kind = b.c.below(3)
    names = []
    for feature in ("any_callback", "weak_reference"):
        n = b.name("d")
        make = ["make_double_buffered_dispatcher", "make_single_buffered_dispatcher", "make_dispatcher"][kind]
        b.decl.append(f"decltype(upd::{make}({k}, upd::policy::{feature})) {n}{{}};")
        names.append(n)
    return subst(good, names[0], i), subst(good, names[1], i)


def bad_type(b):
    b.decl.append("struct Plain { int x; };\nunion Union { int x; };")
    return b.c.of(["float", "double", "int *", "const int", "volatile int", "int &", "const char &", "int &&", "std::string", "std::vector<int>", "Plain", "Union",
                   "void *", "float[2]", "std::array<float, 2>", "std::array<Plain, 3>", "std::array<int *, 2>", "Plain[2]", "std::list<char>",
                   "std::pair<int, int>", "const volatile char", "const char *", "int (*)(int)", "std::nullptr_t"])


def tuple_type(b):
    types = b.c.some(b.type, 1, 4)
    j = b.c.below(len(types))
    bad = list(types)
    bad[j] = bad_type(b)
    save = b.c
    form = b.c.below(4)
    e, m = b.format()
    fmt = f"upd::endianess::{ENUM_E[e]}, upd::signed_mode::{ENUM_M[m]}"
    view = b.c.of(["upd::byte_t *", "const upd::byte_t *", "std::vector<upd::byte_t>::iterator"])

    def use(ts):
        a = "".join(", " + t for t in ts)
        if form == 0:
            return f"upd::tuple<{fmt}{a}> t; (void)t;"
        if form == 1:
            return f"(void)sizeof(upd::tuple<{fmt}{a}>);"
        if form == 2:
            return f"upd::tuple_view<{view}, {fmt}{a}> *v = nullptr; (void)sizeof(*v);"
        return f"auto t = upd::make_tuple<{a[2:]}>(upd::{ENDIANS[e]}, upd::{MODES[m]}); (void)t;"

    # A tuple holds values, whatever it holds by reference is not a value: an array is decayed by none of these forms
    return use(types), use(bad)


def make_tuple_value(b):
    types = b.c.some(b.scalar, 1, 3)
    args = [b.value(t) for t in types]
    b.decl.append("struct Plain { int x; };")
    bad = list(args)
    bad[b.c.below(len(bad))] = b.c.of(["1.5", "1.5f", "std::string{}", "Plain{}", "std::vector<int>{}", "nullptr", "static_cast<int *>(nullptr)",
                                       "std::array<double, 2>{{}}", "std::array<Plain, 2>{{}}"])
    fmt = b.format_args()
    return f"auto t = upd::make_tuple({fmt}, {', '.join(args)}); (void)t;", f"auto t = upd::make_tuple({fmt}, {', '.join(bad)}); (void)t;"


def function_type(b):
    """A callable whose parameters or result cannot be serialized"""
    b.decl.append("struct Plain { int x; };")
    params = b.c.some(b.type, 0, 2)
    ret = b.type()
    bad = b.c.of(["float", "double", "std::string", "Plain", "std::vector<int>", "std::array<float, 2>", "int *"])
    j = b.c.below(len(params) + 1)
    bad_params = params[:j] + [bad] + params[j:]
    good_params = params[:j] + [b.type()] + params[j:]
    position = b.c.below(2)
    form = b.c.below(4)
    fmt = b.format_args()
    out = []
    for ps, r in ((good_params, ret), (bad_params, ret) if position == 0 else (good_params, bad)):
        n = b.name("g")
        b.decl.append(f"{r} {n}({', '.join(ps)});")
        if form == 0:
            out.append(f"upd::action a{{{n}, {fmt}}}; (void)a;")
        elif form == 1:
            out.append(f"upd::no_storage_action a{{UPD_CTREF({n}), {fmt}}}; (void)a;")
        elif form == 2:
            out.append(f"auto d = upd::make_dispatcher(upd::make_keyring(upd::make_flist(UPD_CTREF({n})), {fmt}), upd::policy::weak_reference); (void)d;")
        else:
            out.append(f"auto d = upd::make_double_buffered_dispatcher(upd::make_keyring(upd::make_flist(UPD_CTREF({n})), {fmt}), upd::policy::any_callback); (void)d;")
    return out


def element_range(b):
    types = b.c.some(b.type, 1, 5)
    e, m = b.format()
    fmt = f"upd::endianess::{ENUM_E[e]}, upd::signed_mode::{ENUM_M[m]}"
    a = "".join(", " + t for t in types)
    n = len(types)
    good = b.c.below(n)
    bad = n + b.c.of([0, 1, 7])
    obj = b.c.of([f"upd::tuple<{fmt}{a}> t; ", f"upd::byte_t b[100]; upd::tuple_view<upd::byte_t *, {fmt}{a}> t{{b}}; "])
    form = b.c.below(6)
    t = types[good]

    def use(i):
        if form == 0:
            return f"(void)t.get<{i}>();"
        if form == 1:
            return f"t.set<{i}>({b.value(t)});"
        if form == 2:
            return f"(void)upd::get<{i}>(t);"
        if form == 3:
            return f"upd::set<{i}>(t, {b.value(t)});"
        if form == 4:
            return f"using arg = decltype(t)::arg_t<{i}>; arg *p = nullptr; (void)p;"
        return f"const auto &c = t; (void)c.get<{i}>();"

    return obj + use(good), obj + use(bad)


def view_range(b):
    types = b.c.some(b.type, 1, 5)
    n = len(types)
    i = b.c.below(n)
    length = 1 + b.c.below(n - i)
    t = b.tuple_type(types)
    bad_i, bad_l = b.c.of([(i, n - i + 1), (n, 1), (n + 1, 1), (0, n + 1), (i, n + 5)])
    use = b.c.of(["auto v = t.view<{i}, {l}>(); (void)v;", "auto v = upd::make_view<{i}, {l}>(t); (void)v;",
                  "const auto &c = t; auto v = upd::make_view<{i}, {l}>(c); (void)v;", "(void)t.view<{i}, {l}>().begin();"])
    return f"{t} t; " + use.format(i=i, l=length), f"{t} t; " + use.format(i=bad_i, l=bad_l)


def set_value(b):
    types = b.c.some(b.type, 1, 4)
    j = b.c.below(len(types))
    t = b.tuple_type(types)
    use = b.c.of(["t.set<{j}>({x});", "upd::set<{j}>(t, {x});", "t.view<{j}, 1>().set<0>({x});"])
    return f"{t} t; " + use.format(j=j, x=b.value(types[j])), f"{t} t; " + use.format(j=j, x=wrong_value(b, types[j]))


def construct(b):
    types = b.c.some(b.type, 1, 4)
    t = b.tuple_type(types)
    args = [b.value(x) for x in types]
    if b.c.below(2):
        bad = list(args)
        j = b.c.below(len(bad))
        bad[j] = wrong_value(b, types[j])
    else:
        bad = args + ["0"]
    return f"{t} t{{{', '.join(args)}}}; (void)t;", f"{t} t{{{', '.join(bad)}}}; (void)t;"


def assign(b):
    types = b.c.some(b.scalar, 2, 4)
    t, good = b.tuple_type(types), b.tuple_type(types)
    bad = types[:-1] if b.c.below(2) else types[:-1] + ["std::array<int, 2>"]
    u = b.tuple_type(bad)
    use = b.c.of(["t = u;", "const auto &c = u; t = c;"])
    return f"{t} t; {good} u; {use}", f"{t} t; {u} u; {use}"


def invoke(b):
    types = b.c.some(b.scalar, 1, 3)
    t = b.tuple_type(types)
    b.decl.append("struct Plain { int x; };")
    bad = b.c.of([types[:-1], types + ["int"], types[:-1] + ["Plain"], types[:-1] + ["std::string"], types[:-1] + ["int *"]])
    fun = lambda ps: f"[]({', '.join(ps)}) {{ return 1; }}"
    use = b.c.of(["(void)t.invoke({f});", "auto g = {f}; (void)upd::apply(t, g);"])
    use = "(void)t.invoke({f});"
    return f"{t} t; " + use.format(f=fun(types)), f"{t} t; " + use.format(f=fun(bad))


GOOD_IN = ["[]() -> upd::byte_t { return 0; }", "bytes", "vec.begin()", "static_cast<const upd::byte_t *>(bytes)", "lst.begin()", "source", "Source{}", "vec.cbegin()"]
GOOD_OUT = ["[](upd::byte_t) {}", "bytes", "vec.begin()", "std::back_inserter(vec)", "lst.begin()", "sink", "Sink{}"]
BAD_IN = ["3", "std::string{}", "Plain{}", "[](int) -> upd::byte_t { return 0; }", "[]() { return std::string{}; }", "[]() {}", "plains", "svec.begin()",
          "nullptr", "strange_source", "[]() { return Plain{}; }", "vec", "std::back_inserter(vec)"]
BAD_OUT = ["3", "std::string{}", "Plain{}", "[]() {}", "[](std::string) {}", "[](upd::byte_t, int) {}", "plains", "svec.begin()", "nullptr", "strange_sink",
           "static_cast<const upd::byte_t *>(bytes)", "vec.cbegin()", "[](upd::byte_t *) {}", "vec"]
IO = """struct Plain { int x; };
struct Source { upd::byte_t operator()() { return 0; } };
struct Sink { void operator()(upd::byte_t) {} };
upd::byte_t source();
void sink(upd::byte_t);
std::string strange_source();
void strange_sink(Plain);
upd::byte_t bytes[200];
Plain plains[200];
std::vector<upd::byte_t> vec;
std::vector<Plain> svec;
std::list<upd::byte_t> lst;"""


def key_output(b):
    k, fns = b.keyring()
    f = b.c.of(fns)
    b.decl.append(IO)
    s = f"{b.get(k, f[0])}({', '.join(b.value(p) for p in f[1])}).write_to(%s);"
    return s % b.c.of(GOOD_OUT), s % b.c.of(BAD_OUT)


def key_input(b):
    f = b.function(ret=b.type())
    k, _ = b.keyring(functions=[f] + b.c.some(b.function, 0, 2))
    b.decl.append(IO)
    s = f"(void){b.get(k, f[0])}.read_from(%s);"
    return s % b.c.of(GOOD_IN), s % b.c.of(BAD_IN)


def process_io(b):
    """A source and a destination given to a dispatcher, an action"""
    k, fns = b.keyring()
    b.decl.append(IO)
    what = b.c.below(4)
    good_in, good_out = b.c.of(GOOD_IN), b.c.of(GOOD_OUT)
    if what == 0:
        d, _ = dispatcher(b, k)
        s = d
    elif what == 1:
        f = b.c.of(fns)
        b.decl.append(f"upd::action act{{{f[0]}, {b.format_args()}}};")
        s = "act"
    elif what == 2:
        f = b.c.of(fns)
        b.decl.append(f"upd::no_storage_action act{{UPD_CTREF({f[0]}), {b.format_args()}}};")
        s = "act"
    else:
        d = b.name("d")
        b.decl.append(f"decltype(upd::make_dispatcher({k}, upd::policy::any_callback)) {d}{{}};")
        s = f"{d}[{b.c.below(len(fns))}]"
    # Both are functions or both are iterators, or one of each
    good = (good_in, good_out)
    bad = (b.c.of(BAD_IN), good_out) if b.c.below(2) else (good_in, b.c.of(BAD_OUT))
    return [f"{s}({i}, {o});" for i, o in (good, bad)]


def buffered_io(b):
    k, fns = b.keyring()
    b.decl.append(IO)
    kind = b.c.below(2)
    d = b.name("d")
    b.decl.append(f"decltype(upd::make_{['double', 'single'][kind]}_buffered_dispatcher({k}, upd::policy::{b.c.of(['any_callback', 'weak_reference'])})) {d}{{}};")
    if b.c.below(2):
        return f"{d}.read_from({b.c.of(GOOD_IN)});", f"{d}.read_from({b.c.of(BAD_IN)});"
    return f"{d}.write_to({b.c.of(GOOD_OUT)});", f"{d}.write_to({b.c.of(BAD_OUT)});"


def dispatcher_read(b):
    k, fns = b.keyring()
    b.decl.append(IO)
    d = b.name("d")
    b.decl.append(f"decltype(upd::make_dispatcher({k}, upd::policy::{b.c.of(['any_callback', 'weak_reference'])})) {d}{{}};")
    s = b.c.of([f"(void){d}.get_index(%s);", f"(void){d}.get_action(%s);"])
    good = ["[]() -> upd::byte_t { return 0; }", "source", "Source{}"]
    return s % b.c.of(good), s % b.c.of(BAD_IN)


def not_invocable(b):
    """Something that is not a function where one is needed"""
    f = b.function()
    k, _ = b.keyring(functions=[f])
    b.decl.append("struct Plain { int x; };\nint number;\nPlain object;\nstd::string text;")
    bad = b.c.of(["number", "object", "text"])
    fmt = b.format_args()
    key = b.get(k, f[0])
    forms = ["auto a = upd::make_flist(UPD_CTREF({f})); (void)a;", "upd::action a{{{f}, " + fmt + "}}; (void)a;", "auto a = " + key + ".with_hook({f}); (void)a;",
             "auto k = upd::make_keyring(upd::make_flist(UPD_CTREF({f})), " + fmt + "); (void)k;",
             "upd::no_storage_action a{{UPD_CTREF({f}), " + fmt + "}}; (void)a;", "auto a = " + key + ".with_hook(UPD_CTREF({f})); (void)a;"]
    if b.std >= 17:
        forms += ["auto a = upd::flist<{f}>; (void)a;", "constexpr upd::keyring k{{upd::flist<{f}>}}; (void)k;", "auto a = " + key + ".with_hook<{f}>(); (void)a;"]
    s = b.c.of(forms)
    return s.format(f=f[0]), s.format(f=bad)


def not_keyring(b):
    k, _ = b.keyring()
    b.decl.append("struct Plain {};")
    bad = b.c.of(["int", "Plain", "std::string", f"decltype({k}) *", f"const decltype({k}) &"][:3])
    s = b.c.of(["upd::dispatcher<{k}, upd::action_features::ANY> d; (void)d;", "upd::double_buffered_dispatcher<upd::dispatcher<{k}, upd::action_features::ANY>> d; (void)d;",
                "upd::single_buffered_dispatcher<upd::dispatcher<{k}, upd::action_features::WEAK_REFERENCE>> d; (void)d;"])
    b.decl.append(f"using KR = std::remove_cv<decltype({k})>::type;")
    return s.format(k="KR"), s.format(k=bad)


def reply_key(b):
    # `reply` needs a key whose only parameter is an array of bytes large enough for any response
    n = 40
    f = b.function(params=[f"std::array<upd::byte_t, {n}>"], ret="void")
    peer, _ = b.keyring(functions=[f])
    k, _ = b.keyring()
    b.decl.append(IO)
    d = b.name("d")
    b.decl.append(f"decltype(upd::make_double_buffered_dispatcher({k}, upd::policy::any_callback)) {d}{{}};")
    out = b.c.of(["[](upd::byte_t) {}", "bytes", "sink"])
    bad = b.c.of(["3", "Plain{}", peer, "source"])
    return f"{d}.reply({out}, {b.get(peer, f[0])});", f"{d}.reply({out}, {bad});"


KINDS = [key_count, key_type, key_missing, replace_signature, replace_index, replace_stateful, tuple_type, make_tuple_value, function_type, element_range,
         view_range, set_value, construct, assign, invoke, key_output, key_input, process_io, buffered_io, dispatcher_read, not_invocable, not_keyring, reply_key]


def render(kind, std, choices):
    """Return (common declarations, good statement, bad statement, choices made)"""
    b = Builder(choices, std)
    good, bad = {f.__name__: f for f in KINDS}[kind](b)
    decl = []
    for d in b.decl:
        for part in [d] if d != IO else IO.split("\n"):
            if part not in decl and not (part.startswith("struct Plain") and any(x.startswith("struct Plain") for x in decl)):
                decl.append(part)
    return "\n".join(decl), good, bad, b.c.made


def draw(seed, std):
    r = random.Random(seed)
    kind = r.choice(KINDS + [replace_signature, replace_signature]).__name__
    return (kind,) + render(kind, std, Choices((), r))


if __name__ == "__main__":
    import sys
    for i in range(int(sys.argv[2])):
        kind, d, g, b, _ = draw(f"{sys.argv[1]}/{i}", 17)
        print(f"// {kind}\n{d}\nvoid good() {{ {g} }}\nvoid bad() {{ {b} }}\n")
