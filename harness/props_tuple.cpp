// Properties of tuples, views and the wire format (C01 to C06)
#include "props.hpp"

#include <algorithm>

static void check_storage(Gen &g, IRegion &r, const Region_model &m, const char *when) {
  Bytes d = r.dump();
  CHECK(g, d == m.storage, "%s%s %s: storage is %s instead of %s after %s", r.kind().c_str(), str(m.types).c_str(),
        str(m.fmt).c_str(), hex(d).c_str(), hex(m.storage).c_str(), when);
  CHECK(g, g_iterator_errors == 0, "%s%s: iterator used outside of its range by %s", r.kind().c_str(),
        str(m.types).c_str(), when);
}

static void check_get(Gen &g, IRegion &r, const Region_model &m, size_t i, int how) {
  Vals v = r.get(i, how), w = m.get(i);
  g.obs(v);
  CHECK(g, v == w, "%s%s %s: element %zu reads %s instead of %s (bytes %s, notation %d)", r.kind().c_str(),
        str(m.types).c_str(), str(m.fmt).c_str(), i, str(v).c_str(), str(w).c_str(),
        hex(m.storage.data() + m.at[i], wire_size(m.types[i].leaves)).c_str(), how);
}

static void check_invoke(Gen &g, IRegion &r, const Region_model &m, int how) {
  std::vector<Vals> args;
  unsigned calls = 0;
  bool ok = r.invoke(how, args, calls);
  CHECK(g, calls == 1, "invoke called the functor %u times (notation %d)", calls, how);
  CHECK(g, ok, "invoke lost the result of the functor (notation %d)", how);
  CHECK(g, args.size() == m.types.size(), "invoke passed %zu arguments", args.size());
  for (size_t i = 0; i < args.size(); i++) {
    g.obs(args[i]);
    Vals w = m.get(i);
    CHECK(g, args[i] == w, "%s%s %s: invoke passed %s as argument %zu instead of %s (notation %d)", r.kind().c_str(),
          str(m.types).c_str(), str(m.fmt).c_str(), str(args[i]).c_str(), i, str(w).c_str(), how);
  }
}

static void check_static(Gen &g, IRegion &r, const Region_model &m) {
  CHECK(g, r.size() == m.size, "%s%s: static size is %zu instead of %zu", r.kind().c_str(), str(m.types).c_str(), r.size(),
        m.size);
  CHECK(g, r.distance() == m.size, "%s%s: begin() and end() delimit %zu bytes instead of %zu", r.kind().c_str(),
        str(m.types).c_str(), r.distance(), m.size);
  CHECK(g, r.tuple_size() == m.types.size(), "std::tuple_size is %zu instead of %zu", r.tuple_size(), m.types.size());
  CHECK(g, r.consistent(), "%s%s: src() differs from begin() or wrong element types", r.kind().c_str(),
        str(m.types).c_str());
}

// One random operation on a region against its model
static void region_step(Gen &g, IRegion &r, Region_model &m) {
  size_t n = m.types.size();
  size_t i = g.index(n);
  switch (g.below(r.writable() ? 8 : 5)) {
  case 0:
  case 1: {
    int how = static_cast<int>(g.below(static_cast<uint64_t>(r.get_notations())));
    g.log("get<%zu> (notation %d) -> expect %s", i, how, str(m.get(i)).c_str());
    check_get(g, r, m, i, how);
    check_storage(g, r, m, "get");
    break;
  }
  case 2: {
    int how = static_cast<int>(g.below(static_cast<uint64_t>(r.invoke_notations())));
    g.log("invoke (notation %d)", how);
    check_invoke(g, r, m, how);
    check_storage(g, r, m, "invoke");
    break;
  }
  case 3: { // the storage changes under the region
    size_t k = g.index(m.storage.size());
    uint8_t b = g.byte();
    g.log("storage[%zu] = %02x", k, b);
    r.poke(k, b);
    m.storage[k] = b;
    break;
  }
  case 4: {
    size_t k = g.index(m.size);
    uint8_t b = r.peek_through_region(k);
    g.log("read byte %zu of the region -> %02x", k, b);
    CHECK(g, b == m.storage[m.off + k], "%s: byte %zu of the region is %02x instead of %02x", r.kind().c_str(), k, b,
          m.storage[m.off + k]);
    break;
  }
  case 5: {
    size_t k = g.index(m.size);
    uint8_t b = g.byte();
    g.log("byte %zu of the region = %02x", k, b);
    r.poke_through_region(k, b);
    m.storage[m.off + k] = b;
    check_storage(g, r, m, "writing a byte");
    break;
  }
  default: {
    Vals v = g.values(m.types[i].leaves, m.fmt);
    int how = static_cast<int>(g.below(static_cast<uint64_t>(r.set_notations())));
    g.log("set<%zu>(%s) (notation %d)", i, str(v).c_str(), how);
    r.set(i, v, how);
    m.set(i, v);
    check_storage(g, r, m, "set");
    check_get(g, r, m, i, 0);
  }
  }
}

void region_history(Gen &g, IRegion &r, Region_model &m, unsigned steps) {
  for (unsigned k = 0; k < steps; k++)
    region_step(g, r, m);
  for (size_t i = 0; i < m.types.size(); i++)
    check_get(g, r, m, i, 0);
  g.obs(r.dump());
}

static Typelist &pick_typelist(Gen &g) {
  Typelist &t = *typelists()[g.index(typelists().size())];
  g.log("type list %s", str(t.types).c_str());
  return t;
}

// A tuple or a view of a random kind, with random storage
struct Made {
  std::unique_ptr<ITuple> tuple;
  std::unique_ptr<IRegion> view;
  Region_model model;
  IRegion &region() { return tuple ? static_cast<IRegion &>(*tuple) : *view; }
};
static void make_tuple_region(Gen &g, Typelist &t, Made &m) {
  Tuple_factory &f = t.tuples[g.index(t.tuples.size())];
  g.log("default constructed tuple, %s", str(f.fmt).c_str());
  m.tuple = f.make();
  m.model = Region_model(t.types, f.fmt, 0);
  m.model.storage = m.tuple->dump();
}
static void make_view_region(Gen &g, Typelist &t, Made &m) {
  View_factory &f = t.views[g.index(t.views.size())];
  size_t before = g.below(6), after = g.below(6);
  m.model = Region_model(t.types, f.fmt, before);
  Bytes b = g.bytes(before + m.model.size + after);
  m.model.storage = b;
  int how = static_cast<int>(g.below(static_cast<uint64_t>(f.notations)));
  g.log("view over %s, %s, bytes %s, offset %zu", f.kind.c_str(), str(f.fmt).c_str(), hex(b).c_str(), before);
  m.view = f.make(b, before, how);
}
static void make_any(Gen &g, Typelist &t, Made &m) {
  bool view = !t.views.empty() && (t.tuples.empty() || g.chance(1, 2));
  if (view)
    make_view_region(g, t, m);
  else
    make_tuple_region(g, t, m);
}
static void fill(Gen &g, Made &m) {
  Bytes b = g.bytes(m.model.storage.size());
  for (size_t k = 0; k < b.size(); k++)
    m.region().poke(k, b[k]);
  m.model.storage = b;
  g.log("fill with %s", hex(b).c_str());
}
static bool has_tuples() { return !typelists().empty(); }

// ---------------------------------------------------------------- C01
void rpc_encoding(Gen &g);
void rpc_decoding(Gen &g);

void prop_c01(Gen &g) {
  if (typelists().empty() || (!keyrings().empty() && g.chance(1, 3))) {
    rpc_encoding(g);
    return;
  }
  Typelist &t = pick_typelist(g);
  Made m;
  make_any(g, t, m);
  IRegion &r = m.region();
  if (!r.writable()) {
    // read-only views cannot be serialised into: check what they read
    for (size_t i = 0; i < t.types.size(); i++)
      check_get(g, r, m.model, i, static_cast<int>(g.below(static_cast<uint64_t>(r.get_notations()))));
    return;
  }
  if (m.tuple && g.chance(1, 4)) {
    // serialised at construction
    Tuple_factory *f = 0;
    for (size_t k = 0; k < t.tuples.size(); k++)
      if (t.tuples[k].fmt.big == m.model.fmt.big && t.tuples[k].fmt.mode == m.model.fmt.mode)
        f = &t.tuples[k];
    std::vector<Vals> vs;
    for (size_t i = 0; i < t.types.size(); i++) {
      vs.push_back(g.values(t.types[i].leaves, f->fmt));
      m.model.set(i, vs[i]);
    }
    int how = static_cast<int>(g.below(static_cast<uint64_t>(f->from_notations)));
    m.tuple = f->make_from(vs, how);
    g.log("construct from values (notation %d): %s", how, hex(m.model.storage).c_str());
    check_storage(g, *m.tuple, m.model, "construction from values");
    g.tag("construction");
    g.nontrivial();
    return;
  }
  size_t i = g.index(t.types.size());
  const Leaves &ls = t.types[i].leaves;
  bool sweep = g.chance(1, 16);
  if (sweep) {
    // every value of an 8-bit leaf, a stride through a wider one
    size_t k = g.index(ls.size());
    V lo = leaf_min(ls[k], m.model.fmt), hi = leaf_max(ls[k]);
    V step = ls[k].n == 1 ? 1 : (hi - lo) / 255;
    V start = ls[k].n == 1 ? lo : lo + static_cast<V>(g.raw() >> 1) % (step ? step : 1);
    Vals v = g.values(ls, m.model.fmt);
    g.log("sweep of leaf %zu of element %zu from %s by %s", k, i, str(start).c_str(), str(step ? step : 1).c_str());
    for (V x = start; x <= hi; x += step ? step : 1) {
      v[k] = x;
      r.set(i, v, 0);
      m.model.set(i, v);
      check_storage(g, r, m.model, ("set to " + str(v)).c_str());
      check_get(g, r, m.model, i, 0);
    }
    g.tag("sweep");
  } else {
    unsigned n = 1 + static_cast<unsigned>(g.below(4));
    for (unsigned k = 0; k < n; k++) {
      Vals v = g.values(ls, m.model.fmt);
      int how = static_cast<int>(g.below(static_cast<uint64_t>(r.set_notations())));
      g.log("set<%zu>(%s) (notation %d)", i, str(v).c_str(), how);
      r.set(i, v, how);
      m.model.set(i, v);
      check_storage(g, r, m.model, ("set to " + str(v)).c_str());
      for (size_t q = 0; q < v.size(); q++)
        if (v[q] < 0)
          g.tag("negative value");
    }
  }
  g.obs(r.dump());
  if (ls.size() > 1 || ls[0].n > 1 || ls[0].k == 's')
    g.nontrivial();
}

// ---------------------------------------------------------------- C02
void prop_c02(Gen &g) {
  if (typelists().empty() || (!keyrings().empty() && g.chance(1, 3))) {
    rpc_decoding(g);
    return;
  }
  Typelist &t = pick_typelist(g);
  Made m;
  make_any(g, t, m);
  IRegion &r = m.region();
  if (g.chance(1, 12)) {
    // every pattern of one byte, the others being random
    fill(g, m);
    size_t k = m.model.off + g.index(m.model.size), i = 0;
    while (i + 1 < m.model.at.size() && m.model.at[i + 1] <= k)
      i++;
    g.log("every value of byte %zu", k);
    for (int b = 0; b < 256; b++) {
      r.poke(k, static_cast<uint8_t>(b));
      m.model.storage[k] = static_cast<uint8_t>(b);
      check_get(g, r, m.model, i, b % r.get_notations());
    }
    check_storage(g, r, m.model, "get");
    g.tag("byte sweep");
    g.nontrivial();
    return;
  }
  // special patterns: all zeros, all ones, only the sign bit, random
  switch (g.below(4)) {
  case 0:
    fill(g, m);
    break;
  case 1: {
    uint8_t a = g.chance(1, 2) ? 0xff : 0;
    for (size_t k = 0; k < m.model.storage.size(); k++) {
      r.poke(k, a);
      m.model.storage[k] = a;
    }
    size_t k = g.index(m.model.storage.size());
    uint8_t b = g.byte();
    r.poke(k, b);
    m.model.storage[k] = b;
    g.tag("uniform pattern");
    break;
  }
  default: {
    // per leaf: extreme patterns
    size_t p = m.model.off;
    for (size_t i = 0; i < t.types.size(); i++)
      for (size_t l = 0; l < t.types[i].leaves.size(); l++) {
        Leaf leaf = t.types[i].leaves[l];
        Fmt raw = {m.model.fmt.big, 2};
        Leaf u = {'u', leaf.n};
        static const int picks[] = {0, 1, 3, 4, 6, 7, 8, 11};
        V v;
        uint64_t which = g.below(10);
        if (which == 8)
          v = pow2(8 * leaf.n - 1); // sign bit alone
        else if (which == 9)
          v = pow2(8 * leaf.n - 1) - 1 + static_cast<V>(g.below(3));
        else
          v = leaf_value(u, raw, static_cast<unsigned>(picks[which]), g.raw());
        Bytes b;
        enc(u, v, raw, b);
        for (size_t k = 0; k < b.size(); k++) {
          r.poke(p, b[k]);
          m.model.storage[p++] = b[k];
        }
      }
    g.tag("extreme patterns");
  }
  }
  g.log("bytes %s", hex(m.model.storage).c_str());
  for (size_t i = 0; i < t.types.size(); i++)
    check_get(g, r, m.model, i, static_cast<int>(g.below(static_cast<uint64_t>(r.get_notations()))));
  check_storage(g, r, m.model, "get");
  // what was decoded encodes to bytes which decode to the same value (when representable)
  if (r.writable()) {
    size_t i = g.index(t.types.size());
    Vals v = m.model.get(i);
    bool rep = true;
    for (size_t l = 0; l < v.size(); l++)
      rep = rep && representable(t.types[i].leaves[l], v[l], m.model.fmt);
    if (rep) {
      r.set(i, v, 0);
      m.model.set(i, v);
      check_storage(g, r, m.model, "writing back");
      check_get(g, r, m.model, i, 1);
      g.tag("written back");
    }
  }
  g.obs(r.dump());
  g.nontrivial();
}

// ---------------------------------------------------------------- C03
void prop_c03(Gen &g) {
  Typelist &t = pick_typelist(g);
  if (t.tuples.empty())
    return;
  Tuple_factory &f = t.tuples[g.index(t.tuples.size())];
  Region_model m(t.types, f.fmt, 0);
  m.storage = Bytes(m.size);
  std::unique_ptr<ITuple> x;
  if (g.chance(1, 2)) {
    g.log("default constructed tuple, %s", str(f.fmt).c_str());
    x = f.make();
    for (size_t i = 0; i < t.types.size(); i++)
      m.set(i, Vals(t.types[i].leaves.size(), 0));
    check_storage(g, *x, m, "default construction");
  } else {
    std::vector<Vals> vs;
    for (size_t i = 0; i < t.types.size(); i++) {
      vs.push_back(g.values(t.types[i].leaves, f.fmt));
      m.set(i, vs[i]);
    }
    int how = static_cast<int>(g.below(static_cast<uint64_t>(f.from_notations)));
    g.log("tuple from values (notation %d), %s: %s", how, str(f.fmt).c_str(), hex(m.storage).c_str());
    x = f.make_from(vs, how);
    check_storage(g, *x, m, "construction from values");
  }
  check_static(g, *x, m);
  CHECK(g, x->object_size() == m.size, "a tuple%s occupies %zu bytes instead of %zu", str(t.types).c_str(),
        x->object_size(), m.size);
  std::vector<std::unique_ptr<ITuple>> others;
  std::vector<Region_model> others_m;
  unsigned steps = 1 + static_cast<unsigned>(g.below(10));
  for (unsigned s = 0; s < steps; s++) {
    switch (g.below(6)) {
    case 0: {
      int how = static_cast<int>(g.below(3));
      g.log("copy (notation %d)", how);
      others.push_back(x->clone(how));
      others_m.push_back(m);
      check_storage(g, *others.back(), m, "copy");
      g.tag("copy");
      break;
    }
    case 1:
      if (!others.empty()) {
        size_t k = g.index(others.size());
        g.log("assign copy %zu", k);
        x->assign_same(*others[k]);
        m.storage = others_m[k].storage;
        check_storage(g, *x, m, "assignment");
        break;
      }
      // fall through
    case 2: {
      size_t k = g.index(m.size);
      uint8_t b = g.byte();
      if (g.chance(1, 2)) {
        g.log("[%zu] = %02x", k, b);
        x->set_index(k, b);
        m.storage[k] = b;
        check_storage(g, *x, m, "writing through operator[]");
      } else {
        uint8_t got = x->index(k);
        CHECK(g, got == m.storage[k], "[%zu] is %02x instead of %02x", k, got, m.storage[k]);
      }
      break;
    }
    default:
      region_step(g, *x, m);
    }
  }
  region_history(g, *x, m, 0);
  for (size_t k = 0; k < others.size(); k++) {
    check_storage(g, *others[k], others_m[k], "operations on another tuple");
    if (g.chance(1, 2))
      region_step(g, *others[k], others_m[k]);
    check_storage(g, *x, m, "operations on a copy");
  }
  if (t.types.size() > 1)
    g.nontrivial();
}

// ---------------------------------------------------------------- C04
void prop_c04(Gen &g) {
  Typelist &t = pick_typelist(g);
  bool slice = !t.tuples.empty() && (t.views.empty() || g.chance(1, 2));
  if (!slice) {
    Made m;
    make_view_region(g, t, m);
    check_static(g, *m.view, m.model);
    check_storage(g, *m.view, m.model, "construction");
    region_history(g, *m.view, m.model, 1 + static_cast<unsigned>(g.below(8)));
    g.tag(m.view->kind().c_str());
    g.nontrivial();
    return;
  }
  Made m;
  make_tuple_region(g, t, m);
  fill(g, m);
  if (!m.tuple->slice_count())
    return;
  // several slices of one tuple, used alternately
  struct S {
    std::unique_ptr<IRegion> r;
    Region_model m;
  };
  std::vector<S> slices;
  size_t n = 1 + g.below(3);
  for (size_t k = 0; k < n; k++) {
    bool konst = g.chance(1, 4);
    size_t first, length;
    S s;
    s.r = m.tuple->slice(g.index(m.tuple->slice_count()), static_cast<int>(g.below(2)), konst, first, length);
    s.m = Region_model(std::vector<Type_info_>(t.types.begin() + static_cast<long>(first),
                                               t.types.begin() + static_cast<long>(first + length)),
                       m.model.fmt, m.model.at[first]);
    g.log("slice %zu: elements [%zu, %zu)%s", k, first, first + length, konst ? " of the constant tuple" : "");
    s.m.storage = m.model.storage;
    check_static(g, *s.r, s.m);
    g.tag(konst ? "slice of const" : "slice");
    slices.push_back(std::move(s));
  }
  unsigned steps = 2 + static_cast<unsigned>(g.below(8));
  for (unsigned s = 0; s < steps; s++) {
    size_t k = g.index(n + 1);
    if (k < n) {
      g.log("on slice %zu:", k);
      slices[k].m.storage = m.model.storage;
      region_step(g, *slices[k].r, slices[k].m);
      m.model.storage = slices[k].m.storage;
    } else {
      g.log("on the tuple:");
      region_step(g, *m.tuple, m.model);
    }
  }
  for (size_t k = 0; k < n; k++) {
    slices[k].m.storage = m.model.storage;
    region_history(g, *slices[k].r, slices[k].m, 0);
  }
  g.nontrivial();
}

// ---------------------------------------------------------------- C05
void prop_c05(Gen &g) {
  Typelist &t = pick_typelist(g);
  if (t.assigns.empty() || g.chance(1, 4)) {
    // invoke and the tuple protocol
    Made m;
    make_any(g, t, m);
    fill(g, m);
    IRegion &r = m.region();
    check_static(g, r, m.model);
    int how = static_cast<int>(g.below(static_cast<uint64_t>(r.invoke_notations())));
    g.log("invoke (notation %d)", how);
    check_invoke(g, r, m.model, how);
    for (int k = 0; k < r.get_notations(); k++)
      for (size_t i = 0; i < t.types.size(); i++)
        check_get(g, r, m.model, i, k);
    check_storage(g, r, m.model, "invoke and get");
    g.tag("invoke");
    if (t.types.size() > 1)
      g.nontrivial();
    return;
  }
  Assignment &a = t.assigns[g.index(t.assigns.size())];
  Region_model d(t.types, a.dst, 0), s(t.types, a.src, 0);
  if (a.run) {
    d.storage = g.bytes(d.size);
    // source values must be representable in the destination format
    s.storage = Bytes(s.size);
    Fmt both = {0, a.dst.mode < 2 ? a.dst.mode : a.src.mode};
    for (size_t i = 0; i < t.types.size(); i++) {
      Vals v = g.values(t.types[i].leaves, both);
      s.set(i, v);
      d.set(i, v);
    }
    Bytes dst_in = g.bytes(d.size), dst_out, src_out;
    g.log("%s: %s <- %s, source %s", a.kind.c_str(), str(a.dst).c_str(), str(a.src).c_str(), hex(s.storage).c_str());
    a.run(dst_in, s.storage, dst_out, src_out);
    g.obs(dst_out);
    CHECK(g, g_iterator_errors == 0, "%s: iterator used outside of its range", a.kind.c_str());
    CHECK(g, src_out == s.storage, "%s%s: the source changed from %s to %s", a.kind.c_str(), str(t.types).c_str(),
          hex(s.storage).c_str(), hex(src_out).c_str());
    CHECK(g, dst_out == d.storage, "%s%s (%s <- %s): destination is %s instead of %s", a.kind.c_str(),
          str(t.types).c_str(), str(a.dst).c_str(), str(a.src).c_str(), hex(dst_out).c_str(), hex(d.storage).c_str());
    g.tag(a.kind.c_str());
  } else {
    size_t n = d.size + g.below(d.size + 4);
    size_t doff = g.below(n - d.size + 1), soff = g.below(n - d.size + 1);
    Bytes b = g.bytes(n);
    Region_model ms(t.types, a.src, soff), md(t.types, a.dst, doff);
    ms.storage = b;
    Fmt both = {0, a.dst.mode < 2 ? a.dst.mode : a.src.mode};
    std::vector<Vals> vs;
    for (size_t i = 0; i < t.types.size(); i++) {
      Vals v = g.values(t.types[i].leaves, both);
      ms.set(i, v);
      vs.push_back(v);
    }
    b = ms.storage;
    md.storage = b;
    for (size_t i = 0; i < t.types.size(); i++)
      md.set(i, vs[i]);
    g.log("%s: %s at %zu <- %s at %zu, storage %s", a.kind.c_str(), str(a.dst).c_str(), doff, str(a.src).c_str(), soff,
          hex(b).c_str());
    Bytes out = b;
    a.overlap(out, doff, soff);
    g.obs(out);
    CHECK(g, out == md.storage, "%s%s (%s at %zu <- %s at %zu): storage is %s instead of %s, was %s", a.kind.c_str(),
          str(t.types).c_str(), str(a.dst).c_str(), doff, str(a.src).c_str(), soff, hex(out).c_str(),
          hex(md.storage).c_str(), hex(b).c_str());
    g.tag(doff < soff + d.size && soff < doff + d.size ? "overlapping" : "disjoint");
  }
  if (a.dst.big != a.src.big || a.dst.mode != a.src.mode || !a.run)
    g.nontrivial();
}

// ---------------------------------------------------------------- C06
void rpc_roundtrip(Gen &g);
void prop_c06(Gen &g) {
  if (typelists().empty() || (!keyrings().empty() && g.chance(1, 2))) {
    rpc_roundtrip(g);
    return;
  }
  Typelist &t = pick_typelist(g);
  Made m;
  make_any(g, t, m);
  IRegion &r = m.region();
  check_static(g, r, m.model);
  if (m.tuple) {
    CHECK(g, m.tuple->object_size() == m.model.size, "a tuple%s occupies %zu bytes instead of %zu", str(t.types).c_str(),
          m.tuple->object_size(), m.model.size);
    g.tag("tuple");
  } else
    g.tag(r.kind().c_str());
  if (g.chance(1, 2))
    fill(g, m);
  region_history(g, r, m.model, 2 + static_cast<unsigned>(g.below(6)));
  g.nontrivial();
}

bool tuples_applicable() { return has_tuples(); }
bool assigns_applicable() { return has_tuples(); }
