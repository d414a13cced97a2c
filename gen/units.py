"""Seeded generator of programs made of several translation units which share a keyring, and of what they must print.

A specification is plain JSON; `files` renders it, `expected` evaluates it with the reference model of the wire format."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import wire  # noqa: E402
import pymodule  # noqa: E402

HEADERS = ["action", "buffered_dispatcher", "dispatcher", "format", "key", "keyring", "policy", "tuple", "type", "typelist", "unevaluated"]
ENDIANS = ["little_endian", "big_endian"]
MODES = ["signed_magnitude", "ones_complement", "twos_complement", "offset_binary"]
ENUM_E = ["LITTLE", "BIG"]
ENUM_M = ["SIGNED_MAGNITUDE", "ONES_COMPLEMENT", "TWOS_COMPLEMENT", "OFFSET_BINARY"]
# Declarations of the user, in the global namespace, before the headers of the library
NAMES = ["struct tuple {{ int x; }};", "template<class T> struct tuple_view {{ T x; }};", "namespace detail {{ struct action_t {{}}; int call(int); }}", "struct key {{}};",
         "static int action;", "enum dispatcher {{ dispatcher_a }};", "template<class... Ts> void call(Ts &&...);", "template<class T> int insert(T &&);",
         "int invoke(...);", "template<class... Ts> void make_tuple(Ts &&...);", "typedef long byte_t;", "enum endianess {{ LITTLE, BIG }};",
         "enum class signed_mode {{ A }};", "namespace policy {{ static const int any_callback = 0; }}", "template<int N> struct at {{}};",
         "template<class T> T read_as(const T &);", "struct write_as {{ double d; }};", "template<class T> using require = T *;", "struct unevaluated;",
         "int get(int);", "template<unsigned long I, class T> void get(T &);", "static const char size[] = \"size\";", "template<class F> struct signature {{}};",
         "struct smallest {{}};", "int normalize();", "typedef int src_t;", "typedef int dest_t;", "template<class T> struct is_array {{}};",
         "template<class... Ts> struct typelist_t {{}};", "struct flist_t {{}};", "int begin(int);", "namespace std_ {{}}", "static int little_endian;",
         "template<class T> struct remove_cv_ref {{}};", "enum packet_status {{ LOADING_PACKET }};", "struct no_signature {{}};", "int next(int *);"]

SUPPORT = r"""#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <type_traits>
#include <vector>
namespace user {
inline std::uint64_t mix(std::uint64_t h, std::uint64_t x) {
  h = (h ^ x) * 0x9E3779B97F4A7C15ull;
  return h ^ (h >> 29);
}
template<class T>
void add(std::uint64_t &h, const T &x) {
  h = mix(h, static_cast<std::uint64_t>(x));
}
template<class T, std::size_t N>
void add(std::uint64_t &h, const std::array<T, N> &x) {
  for (const T &y : x)
    add(h, y);
}
template<class R>
struct result {
  static R of(std::uint64_t &h) {
    h = mix(h, 77);
    if (std::is_same<R, bool>::value)
      return static_cast<R>(h >> 63);
    if (!std::is_signed<R>::value)
      return static_cast<R>(h >> (64 - 8 * sizeof(R)));
    long long m = static_cast<long long>(h >> (64 - 8 * sizeof(R) + 1));
    return static_cast<R>(h & 1 ? -m : m);
  }
};
template<class T, std::size_t N>
struct result<std::array<T, N>> {
  static std::array<T, N> of(std::uint64_t &h) {
    std::array<T, N> r{};
    for (T &y : r)
      y = result<T>::of(h);
    return r;
  }
};
template<>
struct result<void> {
  static void of(std::uint64_t &) {}
};
template<class R, class... Ts>
R perform(int id, const Ts &...xs) {
  std::uint64_t h = mix(0, static_cast<std::uint64_t>(id));
  int dummy[] = {0, (add(h, xs), 0)...};
  (void)dummy;
  return result<R>::of(h);
}
template<class T>
void print(const T &x) {
  if (std::is_signed<T>::value)
    std::printf(" %lld", static_cast<long long>(x));
  else
    std::printf(" %llu", static_cast<unsigned long long>(x));
}
template<class T, std::size_t N>
void print(const std::array<T, N> &x) {
  for (const T &y : x)
    print(y);
}
inline void hex(const std::vector<unsigned char> &b) {
  std::printf(" ");
  for (unsigned char x : b)
    std::printf("%02x", x);
}
// Byte sources and destinations
struct reader {
  const std::vector<unsigned char> &bytes;
  std::size_t &at;
  unsigned char operator()() const { return bytes[at++]; }
};
struct writer {
  std::vector<unsigned char> &bytes;
  void operator()(unsigned char b) const { bytes.push_back(b); }
};
struct sum {
  std::vector<unsigned long long> &seen;
  template<class T>
  void one(const T &x) const {
    seen.push_back(static_cast<unsigned long long>(x));
  }
  template<class T, std::size_t N>
  void one(const std::array<T, N> &x) const {
    for (const T &y : x)
      one(y);
  }
};
} // namespace user
"""


def cpp(t, names=None):
    if t is None:
        return "void"
    s = pymodule.NAMES[t[0], t[1]][0]
    return f"std::array<{s}, {t[2]}>" if t[2] is not None else s


def literal(t, v):
    if t[2] is not None:
        one = [t[0], t[1], None]
        return cpp(t) + "{{" + ", ".join(literal(one, x) for x in v) + "}}"
    if t[0] == "b":
        return "true" if v else "false"
    if t[0] == "s":
        return f"static_cast<{cpp(t)}>({v}ll)" if v != -(1 << 63) else "static_cast<std::int64_t>(-9223372036854775807ll - 1)"
    return f"static_cast<{cpp(t)}>({v}ull)"


def draw_scalar(r, t, fmt):
    lo, hi = wire.representable(t, fmt)
    return r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), 0, min(hi, 1)])


def draw_value(r, t, fmt):
    one = [t[0], t[1], None]
    return [draw_scalar(r, one, fmt) for _ in range(t[2])] if t[2] is not None else draw_scalar(r, t, fmt)


def some_headers(r, at_most):
    n = r.choice([0, 0, 1, 2, 3, at_most])
    return [r.choice(HEADERS) for _ in range(n)]


def mixed(r, required, optional):
    """The required headers and some others, in any order"""
    x = [[h, 1] for h in required] + [[h, 0] for h in optional]
    r.shuffle(x)
    return x


def spec(seed, std):
    r = random.Random(f"units {seed}")
    fmt = dict(big=r.randrange(2), mode=r.randrange(4))
    default = std >= 17 and r.random() < .4
    if default:
        fmt = dict(big=0, mode=2)
    ntus = r.choice([2, 2, 3, 3, 4])
    fns = []
    for i in range(r.choice([1, 2, 3, 4])):
        fns.append(dict(id=i + 1, name=f"fn_{i}", params=[pymodule.any_type(r) for _ in range(r.choice([0, 1, 2, 3]))],
                        ret=None if r.random() < .2 else pymodule.any_type(r), where=r.randrange(ntus), functor=r.random() < .2,
                        nothrow=[r.random() < .2, r.random() < .2]))
    shared = dict(notation=r.choice(["class", "make"]) if std >= 17 else "make", default=default, server=r.random() < .5,
                  linkage=r.choice(["constexpr", "constexpr", "static const", "static"] + (["inline constexpr"] if std >= 17 else [])))
    if default:
        shared["notation"] = "class"
    # The code of a caller: the functions are declared, and defined elsewhere
    caller = r.random() < .25
    if caller:
        shared["server"] = False
    need = ["keyring", "typelist", "format", "unevaluated"]
    if default and r.random() < .5:
        need = ["keyring"]  # as in the README
        shared["readme"] = True
    if shared["server"]:
        need += ["dispatcher", "policy"]
    shared["headers"] = mixed(r, need, some_headers(r, 4))
    tus = []
    for n in range(ntus):
        ops, need = [], []
        for _ in range(r.choice([1, 2, 3, 4])):
            i = r.randrange(len(fns))
            f = fns[i]
            op = r.choice(["encode", "encode", "decode", "hook", "tuple", "sizes"] if caller else ["encode", "encode", "serve", "serve", "serve", "decode", "hook", "tuple", "view", "sizes"] + (["server"] * 3 if shared["server"] else []))
            if op in ("decode",) and f["ret"] is None:
                op = "encode"
            o = dict(op=op, fn=i)
            if op in ("encode", "serve", "server"):
                o["args"] = [draw_value(r, t, fmt) for t in f["params"]]
            if op == "serve":
                o["kind"] = r.choice(["plain", "single", "double"])
                o["policy"] = r.choice(["any_callback", "weak_reference"])
                need += ["dispatcher" if o["kind"] == "plain" else "buffered_dispatcher", "policy"]
            if op == "server":
                o["replace"] = r.random() < .4
                need += ["dispatcher"]
            if op in ("decode", "hook"):
                o["value"] = None if f["ret"] is None else draw_value(r, f["ret"], fmt)
                need += ["key"] + (["action"] if op == "hook" else [])
            if op in ("tuple", "view"):
                o["types"] = [pymodule.any_type(r) for _ in range(r.choice([1, 2, 3]))]
                o["fmt"] = dict(big=r.randrange(2), mode=r.randrange(4))
                o["values"] = [draw_value(r, t, o["fmt"]) for t in o["types"]]
                need += ["tuple", "format"]
            if op == "encode":
                need += ["key"]
            ops.append(o)
        used = sorted(set(need)) if r.random() < .7 else []  # shared.hpp and what it includes may be all there is
        if not used:
            ops = [o for o in ops if o["op"] in ("encode", "decode", "sizes", "server")]
        elif any(o["op"] == "serve" and o["kind"] != "plain" for o in ops) and "dispatcher" not in used and r.random() < .5:
            used = [h for h in used if h != "policy"]  # as in the README
        tus.append(dict(headers=mixed(r, used, some_headers(r, 6)), shared_at=r.choice([0, 0, 1, 2, 9]), names=r.sample(NAMES, r.choice([0, 0, 2, 5, 12])), ops=ops))
    return dict(std=std, fmt=fmt, caller=caller, functions=fns, shared=shared, tus=tus, main=r.random() < .5)


def signature(f):
    return ", ".join(cpp(t) + f" x{j}" for j, t in enumerate(f["params"]))


def fmt_args(fmt):
    return f"upd::{ENDIANS[fmt['big']]}, upd::{MODES[fmt['mode']]}"


def nothrow(f, i):
    return " noexcept" if f["nothrow"][i] else ""


def shared_text(s):
    sh, fns = s["shared"], s["functions"]
    out = ["#pragma once", "#include <array>", "#include <cstdint>"]
    out += [f"#include <upd/{h}.hpp>" for h, _ in sh["headers"]]
    for f in fns:
        if f["functor"]:
            out.append(f"struct type_{f['name']} {{ {cpp(f['ret'])} operator()({signature(f)}) const{nothrow(f, 0)}; }};\nextern type_{f['name']} {f['name']};")
        else:
            out.append(f"{cpp(f['ret'])} {f['name']}({signature(f)}){nothrow(f, 0)};")
        out.append(f"{cpp(f['ret'])} alt_{f['name']}({signature(f)}){nothrow(f, 1)};")
    names = ", ".join(f["name"] for f in fns)
    refs = ", ".join(f"UPD_CTREF({f['name']})" for f in fns)
    fmt = "" if sh["default"] else ", " + fmt_args(s["fmt"])
    if sh["notation"] == "class":
        out.append(f"{sh['linkage']} upd::keyring keyring{{upd::flist<{names}>{fmt}}};")
    else:
        out.append(f"{sh['linkage']} auto keyring = upd::make_keyring(upd::make_flist({refs}){fmt});")
    if sh["server"]:
        out.append("typedef decltype(upd::make_dispatcher(keyring, upd::policy::weak_reference)) server_t;\nserver_t &server();")
    return "\n".join(out) + "\n"


def get(s, f):
    if s["std"] >= 17 and f["id"] % 2:
        return f"keyring.get<{f['name']}>()"
    return f"keyring.get(UPD_CTREF({f['name']}))" if not s["shared"].get("readme") else f"keyring.get<{f['name']}>()"


def request(s, o):
    f = s["functions"][o["fn"]]
    return wire.index_bytes(dict(functions=s["functions"], big=s["fmt"]["big"]), o["fn"]) + b"".join(wire.encode(t, v, s["fmt"]) for t, v in zip(f["params"], o["args"]))


def braces(b):
    return "{" + ", ".join(f"0x{x:02x}" for x in b) + "}"


def op_text(s, n, o):
    f = s["functions"][o["fn"]]
    k = get(s, f)
    out = [f'std::printf("{n}");']
    args = ", ".join(literal(t, v) for t, v in zip(f["params"], o.get("args", [])))
    if o["op"] == "encode":
        out += ["std::vector<unsigned char> b;", f"auto k = {k};", f"k({args}).write_to(user::writer{{b}});", "user::hex(b);"]
    elif o["op"] == "sizes":
        out += [f"auto k = {k}; (void)k;", "constexpr std::size_t a = decltype(k)::payload_length, i = decltype(k)::index, c = decltype(keyring)::size;",
                "user::print(a); user::print(i); user::print(c);"]
    elif o["op"] == "decode":
        out += [f"const unsigned char b[] = {braces(wire.encode(f['ret'], o['value'], s['fmt']))};", f"auto k = {k};", "user::print(k.read_from(b + 0));"]
    elif o["op"] == "hook":
        data = wire.encode(f["ret"], o["value"], s["fmt"]) if f["ret"] else b""
        t = f"const {cpp(f['ret'])} &x" if f["ret"] else ""
        out += [f"const std::vector<unsigned char> b {braces(data)};", "std::size_t at = 0; bool called = false;", f"auto k = {k};",
                f"upd::action h = k.with_hook([&]({t}) {{ {'user::print(x);' if f['ret'] else ''} called = true; }});", "h(user::reader{b, at});", "user::print(called);"]
    elif o["op"] == "serve":
        make = {"plain": "make_dispatcher", "single": "make_single_buffered_dispatcher", "double": "make_double_buffered_dispatcher"}[o["kind"]]
        out += [f"const std::vector<unsigned char> b {braces(request(s, o))};", "std::vector<unsigned char> r; std::size_t at = 0;",
                f"auto d = upd::{make}(keyring, upd::policy::{o['policy']});"]
        if o["kind"] == "plain":
            out += ["d(user::reader{b, at}, user::writer{r});"]
        else:
            out += ["for (unsigned char x : b) d.put(x);", "while (d.is_loaded()) r.push_back(d.get());"]
        out += ["user::hex(r);"]
    elif o["op"] == "server":
        out += [f"const std::vector<unsigned char> b {braces(request(s, o))};", "std::vector<unsigned char> r; std::size_t at = 0;"]
        if o["replace"]:
            alt = f"alt_{f['name']}"
            out += [f"server().replace<{o['fn']}>(UPD_CTREF({alt}));" if not s["shared"].get("readme") else f"server().replace<{o['fn']}, {alt}>();"]
        out += ["server()(user::reader{b, at}, user::writer{r});", "user::hex(r);"]
    else:
        types = ", ".join(cpp(t) for t in o["types"])
        e, m = ENUM_E[o["fmt"]["big"]], ENUM_M[o["fmt"]["mode"]]
        args = ", ".join(literal(t, v) for t, v in zip(o["types"], o["values"]))
        data = b"".join(wire.encode(t, v, o["fmt"]) for t, v in zip(o["types"], o["values"]))
        if o["op"] == "tuple":
            out += [f"auto t = upd::make_tuple({fmt_args(o['fmt'])}, {args});", "std::vector<unsigned char> b(t.begin(), t.end());", "user::hex(b);"]
        else:
            out += [f"unsigned char b[] = {braces(data)};", f"upd::tuple_view<unsigned char *, upd::endianess::{e}, upd::signed_mode::{m}, {types}> t{{b}};"]
        out += [f"user::print(t.get<{i}>());" if s["std"] >= 14 else f"user::print(t.get<{i}>());" for i in range(len(o["types"]))]
    out.append('std::printf("\\n");')
    return "{\n  " + "\n  ".join(out) + "\n}"


def files(s):
    out = {"shared.hpp": shared_text(s), "support.hpp": SUPPORT}
    n = 0
    for i, tu in enumerate(s["tus"]):
        text = [x.replace("{{", "{").replace("}}", "}") for x in tu["names"] if x.split()[0]]
        inc = [f"#include <upd/{h}.hpp>" for h, _ in tu["headers"]]
        inc.insert(min(tu["shared_at"], len(inc)), '#include "shared.hpp"')
        text += inc + ['#include "support.hpp"']
        for f in s["functions"]:
            if f["where"] == i and not s["caller"]:
                body = f"user::perform<{cpp(f['ret'])}>({', '.join(['%d'] + [f'x{j}' for j in range(len(f['params']))])})"
                if f["functor"]:
                    text.append(f"{cpp(f['ret'])} type_{f['name']}::operator()({signature(f)}) const{nothrow(f, 0)} {{ return {body % f['id']}; }}\ntype_{f['name']} {f['name']};")
                else:
                    text.append(f"{cpp(f['ret'])} {f['name']}({signature(f)}){nothrow(f, 0)} {{ return {body % f['id']}; }}")
                text.append(f"{cpp(f['ret'])} alt_{f['name']}({signature(f)}){nothrow(f, 1)} {{ return {body % (f['id'] + 1000)}; }}")
        if s["shared"]["server"] and i == 0:
            text.append("server_t &server() { static server_t d = upd::make_dispatcher(keyring, upd::policy::weak_reference); return d; }")
        text.append(f"void unit_{i}() {{")
        for o in tu["ops"]:
            text.append(op_text(s, n, o))
            n += 1
        text.append("}")
        if i == 0:
            text += [f"void unit_{k}();" for k in range(1, len(s["tus"]))]
            text.append("int main() { " + " ".join(f"unit_{k}();" for k in range(len(s["tus"]))) + " }")
        out[f"unit_{i}.cpp"] = "\n".join(text) + "\n"
    return out


def expected(s):
    lines, n = [], 0
    current = {i: f["id"] for i, f in enumerate(s["functions"])}
    for tu in s["tus"]:
        for o in tu["ops"]:
            f = s["functions"][o["fn"]]
            ident = f["id"]
            if o["op"] == "encode":
                x = " " + request(s, o).hex()
            elif o["op"] == "sizes":
                isz = wire.index_size(len(s["functions"]))
                x = f" {isz + sum(wire.size(t) for t in f['params'])} {o['fn']} {len(s['functions'])}"
            elif o["op"] == "decode":
                x = "".join(f" {v}" for v in wire.flat([o["value"]]))
            elif o["op"] == "hook":
                x = ("".join(f" {v}" for v in wire.flat([o["value"]])) if f["ret"] else "") + " 1"
            elif o["op"] in ("serve", "server"):
                if o["op"] == "server":
                    if o["replace"]:
                        current[o["fn"]] = f["id"] + 1000
                    ident = current[o["fn"]]
                r = wire.perform(dict(f, id=ident), o["args"])
                x = " " + (wire.encode(f["ret"], r, s["fmt"]).hex() if f["ret"] else "")
            else:
                x = (" " + b"".join(wire.encode(t, v, o["fmt"]) for t, v in zip(o["types"], o["values"])).hex() if o["op"] == "tuple" else "") + \
                    "".join(f" {v}" for v in wire.flat(o["values"]))
            lines.append(f"{n}{x}")
            n += 1
    return lines


def simpler(s):
    """Specifications with one thing less"""
    def copy():
        import json
        return json.loads(json.dumps(s))

    for i, tu in enumerate(s["tus"]):
        if tu["ops"]:
            for j in range(len(tu["ops"])):
                c = copy()
                del c["tus"][i]["ops"][j]
                yield c
        if tu["names"]:
            c = copy()
            c["tus"][i]["names"] = []
            yield c
            for j in range(len(tu["names"])):
                c = copy()
                del c["tus"][i]["names"][j]
                yield c
        for j, (h, required) in enumerate(tu["headers"]):
            if not required:
                c = copy()
                del c["tus"][i]["headers"][j]
                yield c
    for j, (h, required) in enumerate(s["shared"]["headers"]):
        if not required:
            c = copy()
            del c["shared"]["headers"][j]
            yield c
    if len(s["tus"]) > 1 and not s["tus"][-1]["ops"]:
        c = copy()
        last = len(c["tus"]) - 1
        del c["tus"][-1]
        for f in c["functions"]:
            if f["where"] == last:
                f["where"] = 0
        yield c
