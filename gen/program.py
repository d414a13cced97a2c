"""Seeded generator of C++ programs using the library through the adapters of harness/."""
import random

ENDIANS = [("upd::endianess::LITTLE", "upd::little_endian"), ("upd::endianess::BIG", "upd::big_endian")]
MODES = [("upd::signed_mode::SIGNED_MAGNITUDE", "upd::signed_magnitude"),
         ("upd::signed_mode::ONES_COMPLEMENT", "upd::ones_complement"),
         ("upd::signed_mode::TWOS_COMPLEMENT", "upd::twos_complement"),
         ("upd::signed_mode::OFFSET_BINARY", "upd::offset_binary")]
FORMATS = [(e, m) for e in range(2) for m in range(4)]

SCALARS = ["bool", "char", "signed char", "unsigned char", "std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t",
           "std::int32_t", "std::uint32_t", "std::int64_t", "std::uint64_t", "short", "unsigned short", "int", "unsigned int",
           "long", "unsigned long", "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t"]
SIZES = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "std::int8_t": 1, "std::uint8_t": 1, "std::int16_t": 2,
         "std::uint16_t": 2, "std::int32_t": 4, "std::uint32_t": 4, "std::int64_t": 8, "std::uint64_t": 8, "short": 2,
         "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8,
         "unsigned long long": 8, "wchar_t": 4, "char16_t": 2, "char32_t": 4}


class Type:
    """C++ type: `name`, wire `size`, C array or not"""

    def __init__(self, name, size, carray=None, kind="scalar"):
        self.name, self.size, self.carray, self.kind = name, size, carray, kind

    def __str__(self):
        return f"{self.carray[0]}[{self.carray[1]}]" if self.carray else self.name


def scalar(name):
    return Type(name, SIZES[name])


def std_array(t, n):
    return Type(f"std::array<{t}, {n}>", t.size * n, kind="array")


def c_array(t, n):
    return Type(None, t.size * n, carray=(str(t), n), kind="carray")


class Unit:
    """One translation unit"""

    def __init__(self, rng, index, std):
        self.rng, self.index, self.std = rng, index, std
        self.ns = f"p{index}"
        self.head, self.body, self.reg = [], [], []
        self.users = []
        self.next_fn = 1 + 1000 * index
        self.count = 0
        self.fixed_formats, self.long_lists = False, 0

    # ---------------------------------------------------------------- types

    def scalar(self):
        r = self.rng
        if r.random() < .5:  # signed types are the most intricate
            return scalar(r.choice(["std::int8_t", "std::int16_t", "std::int32_t", "std::int64_t", "int", "short", "signed char",
                                    "long long"]))
        return scalar(r.choice(SCALARS))

    def long_type(self, carrays=True, lo=250, hi=300, many=None):
        """An array taking about lo..hi bytes, or having about that many elements"""
        r = self.rng
        if many is None:
            many = lo >= 250 and r.random() < .3
        if many:
            t = scalar(r.choice(["std::uint8_t", "std::int8_t", "bool", "std::uint16_t", "std::int16_t", "std::int16_t", "std::uint32_t",
                                 "std::int32_t"])) if r.random() < .85 or not any(u.size <= 8 for u in self.users) else r.choice([u for u in self.users if u.size <= 8])
            n = r.choice([256, 257, 258, r.randint(259, 300), 512])
            return c_array(t, n) if carrays and r.random() < .4 else std_array(t, n)
        total = r.choice([254, 255, 256, 257, 258, 260, r.randint(lo, hi)])
        users = [u for u in self.users if u.size <= 150]
        t = self.scalar() if r.random() < .8 or not users else r.choice(users)
        n = max(2, total // t.size)
        return c_array(t, n) if carrays and r.random() < .4 else std_array(t, n)

    def sized(self, total, n=None):
        """Types totalling exactly `total` bytes"""
        r = self.rng
        types = []
        while total > 0:
            t = self.type() if total < 40 or r.random() < .5 else self.long_type(lo=20, hi=60)
            if t.size > total:
                k = r.randint(1, total)
                t = scalar(r.choice([s for s in SCALARS if SIZES[s] <= total])) if r.random() < .7 else std_array(scalar("std::uint8_t"), k)
            if len(types) >= 6:
                t = std_array(scalar("std::uint8_t"), total) if total > 1 else scalar("std::uint8_t")
            types.append(t)
            total -= t.size
        r.shuffle(types)
        return types

    def result(self, total):
        r = self.rng
        if total == 0:
            return Type("void", 0)
        opts = [s for s in SCALARS if SIZES[s] == total]
        if opts and r.random() < .8:
            return scalar(r.choice(opts))
        w = r.choice([k for k in (1, 2, 4, 8) if total % k == 0])
        return std_array(scalar(r.choice([s for s in SCALARS if SIZES[s] == w])), total // w)

    def type(self, depth=0, carrays=True, big=False):
        r = self.rng
        x = r.random()
        if self.users and x < .25:
            t = r.choice(self.users)
            y = r.random()
            n = r.choice([1, 2, 3])
            if t.size * n > 120:
                return t
            if y < .2:
                return std_array(t, n)
            if y < .35 and carrays:
                return c_array(t, n)
            return t
        if x < .40:
            return std_array(self.scalar(), r.choice([1, 2, 3, 5] + ([17] if big else [])))
        if x < .52 and carrays:
            return c_array(self.scalar(), r.choice([1, 2, 3, 4, 7] + ([33] if big else [])))
        return self.scalar()

    def add_user(self, large=False):
        """`large`: several hundred bytes once serialized"""
        r = self.rng
        name = f"U{len(self.users)}"
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        fields = []
        bits = r.random() < .3
        for i in range(n):
            x = r.random()
            if self.users and x < .3:
                t = r.choice([u for u in self.users])
                if r.random() < .3 and t.size <= 20:
                    t = std_array(t, r.choice([1, 2]))
            elif x < .45:
                t = std_array(self.scalar(), r.choice([1, 2, 3]))
            elif bits:
                t = scalar("bool")
            else:
                t = self.scalar()
            if sum(f[1].size for f in fields) + t.size > 60:
                t = scalar("std::int16_t")
            fields.append((f"m{i}", t))
        if large:
            i = r.randrange(n)
            fields[i] = (f"m{i}", self.long_type(carrays=False))
        order = list(fields)
        r.shuffle(order)
        members = []
        for f, t in order:
            if bits and t.name == "bool":
                members.append(f"bool {f} : 1;")
            else:
                members.append(f"{t} {f};")
        if r.random() < .4:
            members.insert(r.randrange(len(members) + 1), f"unsigned char unused[{r.choice([1, 3, 5])}];")
        size = sum(t.size for _, t in fields)
        q = f"{self.ns}::{name}"
        form = r.randrange(3)
        if form == 0:
            ser = " ".join(f"upd::set<{i}>(view, o.{f});" for i, (f, _) in enumerate(fields))
        elif form == 1:
            ser = " ".join(f"view.template set<{i}>(o.{f});" for i, (f, _) in reversed(list(enumerate(fields))))
        else:
            # all the values can be expressed in these formats
            e, m = ENDIANS[r.randrange(2)][1], MODES[r.randrange(2, 4)][1]
            ser = f"view = upd::make_tuple({e}, {m}, {', '.join(self.unbit(f, t, bits) for f, t in fields)});"
        params = ", ".join(f"{t} a{i}" for i, (_, t) in enumerate(fields))
        uns = " ".join(f"o.{f} = a{i};" for i, (f, _) in enumerate(fields))
        flat = " ".join(f"Codec<{t}>::flatten(x.{f}, v);" for f, t in fields)
        load = " ".join(f"{{ {t} e; Codec<{t}>::load(e, p); x.{f} = e; }}" for f, t in fields)
        leaves = " ".join(f"Codec<{t}>::leaves(l);" for _, t in fields)
        self.head.append(f"""
namespace {self.ns} {{
struct {name} {{ {' '.join(members)} }};
}}
template<>
struct upd_extension<{q}> {{
  template<class View>
  static void serialize(const {q} &o, View &view) {{ {ser} }}
  static {q} unserialize({params}) {'noexcept ' if r.random() < .2 else ''}{{ {q} o; std::memset(static_cast<void *>(&o), 0x77, sizeof o); {uns} return o; }}
}};
template<>
struct Codec<{q}, void> {{
  static void leaves(Leaves &l) {{ {leaves} }}
  static void flatten(const {q} &x, Vals &v) {{ {flat} }}
  static void load({q} &x, const V *&p) {{ std::memset(static_cast<void *>(&x), 0x66, sizeof x); {load} }}
  static std::string name() {{ return "{name}{{{', '.join(str(t).replace(self.ns + '::', '').replace('std::', '') for _, t in fields)}}}"; }}
}};
""")
        self.users.append(Type(q, size, kind="user"))
        return self.users[-1]

    @staticmethod
    def unbit(f, t, bits):
        return f"static_cast<bool>(o.{f})" if bits and t.name == "bool" else f"o.{f}"

    # ---------------------------------------------------------------- tuples and views

    def fmt(self, f):
        return f"{ENDIANS[f[0]][0]}, {MODES[f[1]][0]}"

    def add_typelist(self, n=None, formats=2, views=4, assigns=4, types=None, long=False):
        r = self.rng
        if types is None:
            n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
            types = [self.type(big=n < 4) for _ in range(n)]
            if long:  # elements further than 255 bytes
                types = [self.long_type(many=self.long_lists % 2 == 0)] + types[:3]
                if long == "wide":  # more than 255 elements
                    types = [scalar("std::uint8_t") if r.random() < .6 else self.scalar() for _ in range(r.choice([257, 260, r.randint(258, 300)]))]
                if long == "vast":
                    types[0] = c_array(scalar("std::uint8_t"), r.randint(65536, 66000))
                self.long_lists += 1
                if r.random() < .5:
                    r.shuffle(types)
                if types[-1].size > 200:
                    types.append(self.type())
        n = len(types)
        ts = ", ".join(str(t) for t in types)
        name = f"typelist{self.index}_{self.count}"
        self.count += 1
        out = [f"  {{\n    Typelist *t = new_typelist<{ts}>(\"{name}\");"]
        fs = r.sample(FORMATS, min(formats, 8))
        if self.fixed_formats:
            fs = ([(0, 2), (1, 2), (0, r.choice([0, 1, 3]))] + fs)[:max(formats, 3)]
        for f in fs:
            slices = set()
            for _ in range(r.choice([2, 4, 5])):
                i = r.randrange(n)
                slices.add((i, r.randrange(1, n - i + 1)))
            sl = ", ".join(f"Slice<{i}, {l}>" for i, l in sorted(slices))
            out.append(f"    add_tuple<List<{sl}>, {self.fmt(f)}, {ts}>(t);")
        kinds = ["K_pointer", "K_const_pointer", "K_vector", "K_const_vector", "K_deque", "K_list", "K_const_list", "K_forward"]
        ks = r.sample(kinds, min(views, len(kinds)))
        if views and not any(k in ks for k in ("K_list", "K_forward", "K_deque", "K_vector")):
            ks[0] = r.choice(["K_list", "K_forward"])
        for k in ks:
            out.append(f"    add_view<{k}, {self.fmt(r.choice(FORMATS))}, {ts}>(t);")
        if assigns and not any(t.carray for t in types):
            for _ in range(assigns):
                def side(const):
                    f = r.choice(FORMATS)
                    k = r.choice(["tuple"] * 4 + (kinds if const else [k for k in kinds if "const" not in k]))
                    return f"A_tuple<{self.fmt(f)}, {ts}>" if k == "tuple" else f"A_view<{k}, {self.fmt(f)}, {ts}>"
                a, b = side(False), side(True)
                if a == b and "A_view" in a:
                    continue
                out.append(f"    add_assign<{a}, {b}, {r.choice(['true', 'false'])}>(t);")
            for _ in range(max(1, assigns // 3)):
                f, g = r.choice(FORMATS), r.choice(FORMATS)
                k = "K_const_pointer" if f == g else r.choice(["K_pointer", "K_const_pointer"])
                out.append(f"    add_overlap<A_view<K_pointer, {self.fmt(f)}, {ts}>, A_view<{k}, {self.fmt(g)}, {ts}>>(t);")
        out.append("  }")
        self.reg.append("\n".join(out))

    # ---------------------------------------------------------------- keyrings

    def function(self, nparams=None, ret=None, big=False, functor=None, types=None):
        """Emit a typedef of Fn/Fo; return its name and sizes"""
        r = self.rng
        if types is None:
            if nparams is None:
                nparams = r.choice([0, 1, 1, 2, 2, 3, 4])
            types = [self.type(big=big) for _ in range(nparams)]
        if ret is None:
            ret = Type("void", 0) if r.random() < .2 else self.type(carrays=False, big=big)
        params = []
        for t in types:
            if t.carray:
                params.append(f"const {t.carray[0]} (&)[{t.carray[1]}]")
            else:
                params.append(r.choice([f"{t}", f"{t}", f"const {t} &"]))
        ident = self.next_fn
        self.next_fn += 1
        if functor is None:
            functor = r.random() < .15
        name = f"F{ident}"
        self.body.append(f"typedef {'Fo' if functor else 'Fn'}<{', '.join([str(ident), str(ret)] + params)}> {name};")
        return name, sum(t.size for t in types), ret.size

    def emit_keyring(self, name, fns, f, rich, exposed, disps, peer, ios, request, response):
        e, m = f
        refs = ", ".join(f"UPD_CTREF({n}::f)" for n, _, _ in fns)
        hrefs = ", ".join(f"{n}::href" for n, _, _ in fns)
        vals = ", ".join(f"{n}::f" for n, _, _ in fns)
        large = len(fns) > 40
        how = self.rng.randrange(2)
        cpp17 = f"return upd::keyring{{upd::flist<{vals}>, {ENDIANS[e][1]}, {MODES[m][1]}}};"
        if (e, m) == (0, 2) and self.rng.random() < .8:
            cpp17 = f"return upd::keyring{{upd::flist<{vals}>}};"
        make11 = f"return upd::make_keyring(upd::make_flist({refs}), {ENDIANS[e][1]}, {MODES[m][1]});"
        if large:
            make11 = f"return upd::make_keyring(upd::flist_t<{hrefs}>{{}}, {ENDIANS[e][1]}, {MODES[m][1]});"
        self.body.append(f"""
struct {name} {{
  typedef upd::keyring<{self.fmt(f)}, {hrefs}> type;
  static constexpr upd::endianess e = {ENDIANS[e][0]};
  static constexpr upd::signed_mode s = {MODES[m][0]};
  enum : bool {{ rich = {'true' if rich else 'false'} }};
  enum : std::size_t {{ max_request = {request}, max_response = {response} }};
  static type make(int how = 0) {{
#if __cplusplus >= 201703L
    if (how % 2 == {how}) {{ {cpp17} }}
#endif
    {'if (how % 2) return type{};' if not large else '(void)how;'}
    {make11}
  }}
  typedef List<{', '.join(n for n, _, _ in fns)}> fns;
  typedef List<{', '.join(f'Exposed<{i}, {fns[i][0]}>' for i in exposed)}> exposed;
  typedef List<{', '.join(f'Disp<{k}, {p}>' for k, p in disps)}> dispatchers;
  typedef {ios} ios;
  typedef {peer} peer;
  static std::string name() {{ return "{name}"; }}
}};""")

    def index_size(self, n):
        return 1 if n <= 255 else 2

    def add_keyring(self, shape="small", f=None, disps=None):
        r = self.rng
        f = f or (r.choice(FORMATS) if r.random() < .75 else (0, 2))
        if self.fixed_formats:
            f = r.choice([(0, 2), (1, 2), (0, 2), (0, 0), f])
        name = f"K{self.index}_{self.count}"
        self.count += 1
        rich = True
        if shape in ("small", "peer"):
            fns = [self.function() for _ in range(r.choice([2, 3, 3, 4, 4, 5]))]
        elif shape == "one":
            fns = [self.function(nparams=r.choice([0, 1, 3]))]
        elif shape == "nullary":  # no parameter at all; results of various sizes
            fns = [self.function(nparams=0) for _ in range(3)] + [self.function(nparams=0, ret=Type("void", 0))]
        elif shape == "void":  # no result at all
            fns = [self.function(ret=Type("void", 0)) for _ in range(3)]
        elif shape == "largeret":  # the largest result is larger than the largest request
            fns = [self.function(nparams=1, types=[scalar("std::uint8_t")], ret=std_array(self.scalar(), r.choice([9, 12, 20]))),
                   self.function(nparams=0), self.function(types=[self.scalar(), self.scalar()], ret=scalar("bool"))]
            r.shuffle(fns)
        elif shape == "largereq":
            fns = [self.function(types=[std_array(self.scalar(), r.choice([9, 12, 20])), self.scalar()], ret=self.scalar()),
                   self.function(nparams=0), self.function(types=[self.scalar()], ret=self.type(carrays=False))]
            r.shuffle(fns)
        elif shape == "mix":  # any relation between the sizes of requests and responses
            top, tip = r.choice([(24, 6), (6, 24), (16, 16), (40, 40), (9, 10), (10, 9)])
            fns = [self.function(types=self.sized(r.randint(0, top)), ret=self.result(r.randint(0, tip))) for _ in range(r.choice([3, 4, 5]))]
        elif shape == "hugereq":  # a request larger than 255 bytes
            fns = [self.function(types=self.sized(r.choice([253, 254, 255, 256, 257, r.randint(258, 400)])), ret=self.scalar()),
                   self.function(), self.function(nparams=0), self.function(types=[self.long_type(), self.scalar()], ret=self.scalar())]
            r.shuffle(fns)
        elif shape == "hugeret":  # a response larger than 255 bytes
            fns = [self.function(types=[self.scalar()], ret=self.result(r.choice([254, 255, 256, 257, r.randint(258, 400)]))),
                   self.function(nparams=1, ret=self.long_type(carrays=False)), self.function(nparams=0), self.function()]
            r.shuffle(fns)
        elif shape == "huge":
            fns = [self.function(types=self.sized(r.choice([255, 256, 257, r.randint(258, 400)])), ret=self.long_type(carrays=False)),
                   self.function(types=[self.scalar(), self.users[-1]], ret=self.users[-1]),
                   self.function(types=[self.long_type()], ret=self.result(r.choice([255, 256, 257, r.randint(258, 400)]))), self.function()]
            r.shuffle(fns)
        elif shape == "vast":  # a request and a response larger than 65535 bytes
            fns = [self.function(types=[std_array(scalar("std::uint8_t"), r.randint(65536, 65600)), self.scalar()], ret=self.scalar()), self.function(),
                   self.function(nparams=1, ret=std_array(scalar(r.choice(["std::int16_t", "std::uint32_t"])), r.randint(32768, 32800)))]
            r.shuffle(fns)
        elif shape == "users":
            fns = [self.function(types=[r.choice(self.users)], ret=r.choice(self.users)),
                   self.function(types=[std_array(r.choice(self.users), 2), self.scalar()], ret=std_array(r.choice(self.users), 2)),
                   self.function(types=[c_array(r.choice(self.users), 2)], ret=self.scalar()),
                   self.function(types=[self.scalar()], ret=r.choice(self.users))]
            r.shuffle(fns)
        elif shape == "functors":
            fns = [self.function(functor=True), self.function(functor=False), self.function(functor=True)]
        elif shape == "same":  # several functions of the same signature
            t, u = self.type(carrays=False), self.scalar()
            fns = [self.function(types=[t, u], ret=t) for _ in range(4)]
        else:
            n = int(shape)
            rich = n <= 40
            special = {0, n - 1, n // 2, 254, 255, 256, 127, 128} & set(range(n))
            fns = []
            for i in range(n):
                if i in special or r.random() < .05:
                    fns.append(self.function(functor=False))
                else:
                    fns.append(self.function(types=[scalar(r.choice(["std::uint8_t", "std::int16_t"]))] * r.choice([0, 1]),
                                             ret=scalar("std::uint8_t") if r.random() < .5 else Type("void", 0), functor=False))
        n = len(fns)
        exposed = list(range(n)) if rich else sorted({0, n - 1, n // 2, 254, 255, 256, 127, 128} & set(range(n)))
        if disps is None:
            disps = [(k, p) for k in range(5) for p in range(2)]
            disps = r.sample(disps, 4)
            if not any(k == 0 for k, _ in disps):
                disps[0] = (0, r.randrange(2))
            if not any(k == 2 or k == 4 for k, _ in disps):
                disps[1] = (r.choice([2, 4]), r.randrange(2))
            if not any(k == 1 or k == 3 for k, _ in disps):
                disps[2] = (r.choice([1, 3]), r.randrange(2))
            disps = sorted(set(disps))
        request = self.index_size(n) + max(p for _, p, _ in fns)
        response = max(x for _, _, x in fns)
        # peer: functions taking a byte array, around the sizes of the responses
        sizes = sorted({x for _, _, x in fns if x})
        lens = {max(1, response), max(1, response) + r.choice([1, 3, 9]), 1}
        if sizes:
            lens.add(r.choice(sizes))
            lens.add(max(1, r.choice(sizes) - 1))
        lens = sorted(lens)
        pf = r.choice(FORMATS)
        peer_fns = []
        for k in lens:
            t = c_array(scalar("std::uint8_t"), k) if r.random() < .5 else std_array(scalar("unsigned char"), k)
            peer_fns.append(self.function(types=[t], ret=Type("void", 0) if r.random() < .7 else scalar("int"), functor=r.random() < .3))
        pads = 260 if shape == "peer" else 0
        while pads and len(peer_fns) < pads:
            peer_fns.append(self.function(types=[], ret=Type("void", 0), functor=False))
        pname = name + "_peer"
        self.emit_keyring(pname, peer_fns, pf, False, list(range(len(lens))), [(0, 1)], "void", "Io_lean",
                          self.index_size(len(peer_fns)) + max(p for _, p, _ in peer_fns), max(x for _, _, x in peer_fns))
        ins = ["IN_LAMBDA", "IN_FUNCTOR_RVALUE", "IN_FUNCTION", "IN_INPUT_ITERATOR", "IN_POINTER", "IN_CONST_POINTER", "IN_VECTOR",
               "IN_LIST", "IN_FORWARD"]
        outs = ["OUT_LAMBDA", "OUT_FUNCTOR_RVALUE", "OUT_FUNCTION", "OUT_BACK_INSERTER", "OUT_OUTPUT_ITERATOR", "OUT_POINTER",
                "OUT_VECTOR", "OUT_LIST"]
        pairs = r.sample([(i, o) for i in ins for o in outs], 7) + [("IN_POINTER", "OUT_POINTER"), ("IN_INPUT_ITERATOR", "OUT_LAMBDA")]
        ios = "List<" + ", ".join(f"Io<{i}, {o}>" for i, o in pairs) + ">"
        self.emit_keyring(name, fns, f, rich, exposed, disps, pname, ios, request, response)
        self.reg.append(f"  register_keyring<{name}>(new Keyring_box<{pname}>);")

    # ---------------------------------------------------------------- output

    def source(self, tuples=True, rpc=True):
        inc = ["#include <cstdint>"] + (['#include "adapt_tuple.hpp"'] if tuples else []) + (['#include "adapt_rpc.hpp"'] if rpc else [])
        return "\n".join(inc) + "\n" + "".join(self.head) + f"\nnamespace {self.ns} {{\n" + "\n".join(self.body) + \
            "\n\nstatic int register_all() {\n" + "\n".join(self.reg) + "\n  return 0;\n}\n" + \
            "static const int registered = register_all();\n}\n"


def make_unit(seed, index, std, typelists=0, keyrings=(), users=2, formats=2, views=4, assigns=4, fixed_formats=False, longlists=0, vast=""):
    """`fixed_formats`: favour the formats which the hints may handle specially"""
    r = random.Random(f"unpadded {seed} {index} {typelists} {len(keyrings)}")
    u = Unit(r, index, std)
    u.fixed_formats = fixed_formats
    u.long_lists = index
    for k in range(users):
        u.add_user(large=(longlists > 0 or any(x in ("huge", "users") for x in keyrings)) and k == users - 1)
    for k in range(typelists):
        u.add_typelist(formats=formats, views=views, assigns=assigns)
    for k in range(longlists):
        u.add_typelist(formats=1 if vast else min(formats, 3), views=1 if vast else min(views, 3), assigns=1 if vast else min(assigns, 3), long=vast or True)
    for k in keyrings:
        u.add_keyring(k)
    return u.source(typelists + longlists > 0, len(keyrings) > 0)


if __name__ == "__main__":
    import sys
    a = sys.argv
    print(make_unit(a[1], int(a[2]), 17, int(a[3]), a[4].split(",") if len(a) > 4 and a[4] else ()))
