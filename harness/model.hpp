// Reference model of the wire format. Shares no code with the library under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

typedef __int128 V;
typedef std::vector<V> Vals;
typedef std::vector<uint8_t> Bytes;

// Elementary wire field: 'u'nsigned, 's'igned or 'b'ool of `n` bytes
struct Leaf {
  char k;
  uint8_t n;
};
typedef std::vector<Leaf> Leaves;

struct Fmt {
  int big;  // 0: little endian, 1: big endian
  int mode; // 0: sign-magnitude, 1: ones' complement, 2: two's complement, 3: offset binary
};

inline V pow2(int n) { return static_cast<V>(1) << n; }

inline V leaf_min(Leaf l, Fmt f) {
  if (l.k != 's')
    return 0;
  return -pow2(8 * l.n - 1) + (f.mode < 2 ? 1 : 0);
}
inline V leaf_max(Leaf l) { return l.k == 'b' ? 1 : l.k == 's' ? pow2(8 * l.n - 1) - 1 : pow2(8 * l.n) - 1; }

inline void enc(Leaf l, V v, Fmt f, Bytes &out) {
  V pattern = v;
  if (l.k == 's') {
    V half = pow2(8 * l.n - 1), full = pow2(8 * l.n);
    switch (f.mode) {
    case 0:
      pattern = v < 0 ? half + (-v) : v;
      break;
    case 1:
      pattern = v < 0 ? full - 1 + v : v;
      break;
    case 2:
      pattern = v < 0 ? full + v : v;
      break;
    default:
      pattern = v + half;
    }
  }
  size_t base = out.size();
  out.resize(base + l.n);
  for (int i = 0; i < l.n; i++) {
    out[base + (f.big ? l.n - 1 - i : i)] = static_cast<uint8_t>(pattern % 256);
    pattern /= 256;
  }
}

inline V dec(Leaf l, const uint8_t *p, Fmt f) {
  V pattern = 0;
  for (int i = 0; i < l.n; i++)
    pattern = pattern * 256 + p[f.big ? i : l.n - 1 - i];
  if (l.k == 'b')
    return pattern != 0;
  if (l.k == 'u')
    return pattern;
  V half = pow2(8 * l.n - 1), full = pow2(8 * l.n);
  switch (f.mode) {
  case 0:
    return pattern >= half ? -(pattern - half) : pattern;
  case 1:
    return pattern >= half ? -(full - 1 - pattern) : pattern;
  case 2:
    return pattern >= half ? pattern - full : pattern;
  default:
    return pattern - half;
  }
}

inline size_t wire_size(const Leaves &ls) {
  size_t n = 0;
  for (size_t i = 0; i < ls.size(); i++)
    n += ls[i].n;
  return n;
}

inline Bytes enc_all(const Leaves &ls, const Vals &vs, Fmt f) {
  Bytes out;
  for (size_t i = 0; i < ls.size(); i++)
    enc(ls[i], vs[i], f, out);
  return out;
}

inline Vals dec_all(const Leaves &ls, const uint8_t *p, Fmt f) {
  Vals out;
  for (size_t i = 0; i < ls.size(); i++) {
    out.push_back(dec(ls[i], p, f));
    p += ls[i].n;
  }
  return out;
}

inline bool representable(Leaf l, V v, Fmt f) { return leaf_min(l, f) <= v && v <= leaf_max(l); }

inline std::string str(V v) {
  if (v == 0)
    return "0";
  bool neg = v < 0;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
  std::string s;
  while (u) {
    s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
    u /= 10;
  }
  return neg ? "-" + s : s;
}
inline std::string str(const Vals &vs) {
  std::string s = "(";
  for (size_t i = 0; i < vs.size(); i++)
    s += (i ? "," : "") + str(vs[i]);
  return s + ")";
}
inline std::string hex(const uint8_t *p, size_t n) {
  std::string s;
  char buf[4];
  for (size_t i = 0; i < n; i++) {
    snprintf(buf, sizeof buf, "%02x", p[i]);
    s += buf;
  }
  return s;
}
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
inline std::string str(const Leaves &ls) {
  std::string s;
  for (size_t i = 0; i < ls.size(); i++)
    s += std::string(i ? "," : "") + ls[i].k + std::to_string(8 * ls[i].n);
  return s;
}
inline std::string str(Fmt f) {
  static const char *const modes[] = {"sign-magnitude", "ones-complement", "twos-complement", "offset-binary"};
  return std::string(f.big ? "big/" : "little/") + modes[f.mode];
}

inline uint64_t mix(uint64_t x) {
  x ^= x >> 30;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27;
  x *= 0x94d049bb133111ebull;
  x ^= x >> 31;
  return x;
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull); }

// Value of a leaf, biased towards boundaries, always representable. `pick` and `raw` are arbitrary.
inline V leaf_value(Leaf l, Fmt f, unsigned pick, uint64_t raw) {
  V lo = leaf_min(l, f), hi = leaf_max(l), v;
  switch (pick % 12) {
  case 0:
    v = 0;
    break;
  case 1:
    v = 1;
    break;
  case 2:
    v = -1;
    break;
  case 3:
    v = lo;
    break;
  case 4:
    v = hi;
    break;
  case 5:
    v = lo + static_cast<V>(raw % 3);
    break;
  case 6:
    v = hi - static_cast<V>(raw % 3);
    break;
  case 7: // around a power of two
    v = pow2(static_cast<int>(raw % (8u * l.n))) + static_cast<V>((raw >> 8) % 3) - 1;
    if ((raw >> 16) & 1)
      v = -v;
    break;
  case 8: // one significant byte
    v = static_cast<V>((raw >> 8) & 0xff) << (8 * (raw % l.n));
    if ((raw >> 16) & 1)
      v = -v;
    break;
  case 9: // small
    v = static_cast<V>(raw % 300) - 150;
    break;
  default:
    v = lo + static_cast<V>(static_cast<unsigned __int128>(raw) % static_cast<unsigned __int128>(hi - lo + 1));
  }
  if (v < lo || v > hi) {
    // wrap into the domain
    V span = hi - lo + 1;
    v = (v - lo) % span;
    if (v < 0)
      v += span;
    v += lo;
  }
  return v;
}
