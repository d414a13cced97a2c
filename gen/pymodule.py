"""Seeded generator of extension modules exposing keyrings and dispatchers to Python, with their specification.

Types in a specification: [kind, size, count]: kind 'u', 's' or 'b', size of an element in bytes, count None (scalar) or the
length of an array."""
import random

ENDIANS = ["little_endian", "big_endian"]
MODES = ["signed_magnitude", "ones_complement", "twos_complement", "offset_binary"]
NAMES = {("u", 1): ["std::uint8_t", "unsigned char"], ("u", 2): ["std::uint16_t", "unsigned short"], ("u", 4): ["std::uint32_t", "unsigned int"],
         ("u", 8): ["std::uint64_t", "unsigned long", "unsigned long long"], ("s", 1): ["std::int8_t", "signed char"],
         ("s", 2): ["std::int16_t", "short"], ("s", 4): ["std::int32_t", "int"], ("s", 8): ["std::int64_t", "long", "long long"],
         ("b", 1): ["bool"]}

HEAD = r"""
#include <array>
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <upd/keyring.hpp>
#include <upd/python.hpp>

static std::vector<std::pair<int, std::vector<std::string>>> g_log;

static std::uint64_t mix(std::uint64_t h, std::uint64_t x) {
  h = (h ^ x) * 0x9E3779B97F4A7C15ull;
  return h ^ (h >> 29);
}
struct Call {
  std::uint64_t h;
  std::vector<std::string> args;
  explicit Call(int id) : h(mix(0, id)) {}
  template<class T, class = std::enable_if_t<std::is_integral<T>::value>>
  void add(const T &x) {
    args.push_back(std::is_signed<T>::value ? std::to_string((long long)x) : std::to_string((unsigned long long)x));
    h = mix(h, static_cast<std::uint64_t>(x));
  }
  template<class T, std::size_t N>
  void add(const std::array<T, N> &x) {
    for (const auto &y : x)
      add(y);
  }
};
template<class R>
struct Result {
  static R get(std::uint64_t &h) {
    h = mix(h, 77);
    if (std::is_same<R, bool>::value)
      return static_cast<R>(h >> 63);
    unsigned bits = 8 * sizeof(R);
    if (!std::is_signed<R>::value)
      return static_cast<R>(h >> (64 - bits));
    long long m = static_cast<long long>(h >> (64 - bits + 1));
    return static_cast<R>(h & 1 ? -m : m);
  }
};
template<class T, std::size_t N>
struct Result<std::array<T, N>> {
  static std::array<T, N> get(std::uint64_t &h) {
    std::array<T, N> r{};
    for (auto &y : r)
      y = Result<T>::get(h);
    return r;
  }
};
template<>
struct Result<void> {
  static void get(std::uint64_t &) {}
};
template<class R, class... Ts>
R perform(int id, const Ts &...xs) {
  Call c{id};
  int dummy[] = {0, (c.add(xs), 0)...};
  (void)dummy;
  g_log.emplace_back(id, c.args);
  return Result<R>::get(c.h);
}
"""


def leaf(r):
    x = r.random()
    if x < .1:
        return ("b", 1)
    return ("s" if x < .6 else "u", r.choice([1, 1, 2, 4, 8]))


def any_type(r):
    k, n = leaf(r)
    return [k, n, r.choice([1, 2, 3, 5]) if r.random() < .25 else None]


def long_type(r):
    """An array of about 250 to 400 bytes or elements"""
    k, n = leaf(r)
    if r.random() < .4:
        return [k, min(n, 2), r.choice([256, 257, r.randint(258, 300)])]
    total = r.choice([254, 255, 256, 257, 258, r.randint(250, 400)])
    return [k, n, max(2, total // n)]


def cpp(r, t):
    s = r.choice(NAMES[t[0], t[1]])
    return f"std::array<{s}, {t[2]}>" if t[2] is not None else s


def module(seed, index, name, large=False, keyrings=2, offset=0):
    """Return (C++ source, specification). Another offset gives the same declarations, but functions which behave otherwise."""
    r = random.Random(f"pymodule {seed} {index}")
    body, binds, krs = [HEAD], [], []
    ident = 0
    used = set()
    for k in range(1 if large else keyrings):
        e, m = r.randrange(2), r.randrange(4)
        fns = []
        n = large if large else r.choice([1, 2, 3, 4, 5])
        same = [any_type(r)]
        for i in range(n):
            ident += 1
            small = large and i not in (0, n - 1, 255, 254)
            params = [] if small else [any_type(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            ret = None if r.random() < .25 or small else any_type(r)
            if i == 0 and not large and r.random() < .6:
                x = r.random()
                if x < .7:
                    params = params[:1] + [long_type(r)] + params[1:2]
                if x > .4:
                    ret = long_type(r)
            elif i and r.random() < .3 and not small:
                params, ret = same, fns[0]["ret"]
            same = params
            while True:
                fname = r.choice(["f", "get_", "on", "set", "value", "update_", "a", "_x", "f_f", "call", "upd", "module_", "my_fn", "X"]) \
                    + str(r.randrange(1000)) + r.choice(["", "", "_", "b", "_long_name"])
                if fname not in used:
                    break
            used.add(fname)
            types = [cpp(r, t) for t in params]
            decl = ", ".join(f"const {c} &x{j}" if r.random() < .3 else f"{c} x{j}" for j, c in enumerate(types))
            rt = cpp(r, ret) if ret else "void"
            call = f"return perform<{rt}>({', '.join([str(ident + offset)] + [f'x{j}' for j in range(len(types))])});"
            nx = "noexcept " if r.random() < .2 else ""
            form = r.choice(["plain", "plain", "plain", "static", "namespace", "nested", "anonymous", "member", "functor", "lambda"])
            if small:
                form = "plain"
            q = fname
            if form == "plain":
                body.append(f"{rt} {fname}({decl}) {nx}{{ {call} }}")
            elif form == "static":
                body.append(f"static {rt} {fname}({decl}) {nx}{{ {call} }}")
            elif form == "namespace":
                body.append(f"namespace ns{ident} {{ {rt} {fname}({decl}) {nx}{{ {call} }} }}")
                q = f"ns{ident}::{fname}"
            elif form == "nested":
                body.append(f"namespace na{ident} {{ namespace nb {{ {rt} {fname}({decl}) {nx}{{ {call} }} }} }}")
                q = f"na{ident}::nb::{fname}"
            elif form == "anonymous":
                body.append(f"namespace {{ {rt} {fname}({decl}) {nx}{{ {call} }} }}")
            elif form == "member":
                body.append(f"struct S{ident} {{ static {rt} {fname}({decl}) {nx}{{ {call} }} }};")
                q = f"S{ident}::{fname}"
            elif form == "functor":
                body.append(f"struct T{ident} {{ {rt} operator()({decl}) const {nx}{{ {call} }} }} {fname};")
            else:
                body.append(f"auto {fname} = []({decl}) {nx}-> {rt} {{ {call} }};")
            fns.append(dict(name=fname, id=ident + offset, params=params, ret=ret, cpp=q))
        kr = f"keyring_{k}"
        notation = r.randrange(2)
        if notation or large:
            body.append(f"constexpr upd::keyring {kr}{{upd::flist<{', '.join(f['cpp'] for f in fns)}>, upd::{ENDIANS[e]}, upd::{MODES[m]}}};")
        else:
            refs = ", ".join(f"UPD_CTREF({f['cpp']})" for f in fns)
            body.append(f"const auto {kr} = upd::make_keyring(upd::make_flist({refs}), upd::{ENDIANS[e]}, upd::{MODES[m]});")
        dispatcher = None
        if k == 0 or r.random() < .6 or large:
            dispatcher = f"Dispatcher{k}"
            binds.append(f'  upd::py::declare_dispatcher(pymodule, "{dispatcher}", {kr});')
        else:
            binds.append(f"  upd::py::unpack_keyring(pymodule, {kr});")
        krs.append(dict(dispatcher=dispatcher, big=e, mode=m, functions=[{a: f[a] for a in ("name", "id", "params", "ret")} for f in fns]))
    body.append(f"PYBIND11_MODULE({name}, pymodule) {{")
    body += binds
    body.append('  pymodule.def("calls__", [] { auto r = g_log; g_log.clear(); return r; });\n}')
    return "\n".join(body) + "\n", dict(module=name, keyrings=krs)


if __name__ == "__main__":
    import sys
    print(module(sys.argv[1], int(sys.argv[2]), "m", int(sys.argv[3]) if len(sys.argv) > 3 else False)[0])
