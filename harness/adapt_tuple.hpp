// Adapters over upd::tuple and upd::tuple_view
#pragma once
#include <upd/format.hpp>
#include <upd/tuple.hpp>
#include <upd/type.hpp>

#include "adapt_upd.hpp"

template<class... Ts>
std::vector<Type_info_> types_of() {
  std::vector<Type_info_> r = {Type_info_{leaves_of<Ts>(), Codec<Ts>::name()}...};
  return r;
}

// ---------------------------------------------------------------- functors invoked with the elements of a tuple

inline void record_rec() {}
template<class T>
void record_one(const T &x) {
  Vals v;
  Codec<T>::flatten(x, v);
  g_invocation.args->push_back(v);
}
template<class... Ts>
unsigned record(const Ts &...xs) {
  Pause p;
  ++*g_invocation.calls;
  {
    Pause p;
    nest_point();
  }
  int dummy[] = {0, (record_one<Ts>(xs), 0)...};
  (void)dummy;
  return 0xc0ffee00u + sizeof...(Ts);
}
template<class... Ts>
struct Inv_ref {
  unsigned operator()(const Ts &...xs) { return record<Ts...>(xs...); }
};
template<class... Ts>
struct Inv_value {
  unsigned operator()(typename By_value<Ts>::type... xs) const { return record<Ts...>(xs...); }
};
template<class... Ts>
struct Inv_void {
  void operator()(typename By_value<Ts>::type... xs) { record<Ts...>(xs...); }
};
template<class... Ts>
unsigned inv_function(typename By_value<Ts>::type... xs) {
  return record<Ts...>(xs...);
}

// ---------------------------------------------------------------- structured bindings (C++17)

#if __cplusplus >= 201703L
template<class X>
void bind_all(const X &x, std::vector<Vals> &out) {
  constexpr auto n = std::tuple_size<X>::value;
  auto add = [&](const auto &...e) {
    int d[] = {0, (out.emplace_back(), Codec<typename Bare<decltype(e)>::type>::flatten(e, out.back()), 0)...};
    (void)d;
  };
  if constexpr (n == 1) {
    auto [a] = x;
    add(a);
  } else if constexpr (n == 2) {
    auto [a, b] = x;
    add(a, b);
  } else if constexpr (n == 3) {
    auto &&[a, b, c] = x;
    add(a, b, c);
  } else if constexpr (n == 4) {
    auto [a, b, c, d] = x;
    add(a, b, c, d);
  } else if constexpr (n == 5) {
    const auto &[a, b, c, d, e] = x;
    add(a, b, c, d, e);
  } else if constexpr (n == 6) {
    auto [a, b, c, d, e, f] = x;
    add(a, b, c, d, e, f);
  } else if constexpr (n == 7) {
    auto [a, b, c, d, e, f, g] = x;
    add(a, b, c, d, e, f, g);
  } else if constexpr (n == 8) {
    auto [a, b, c, d, e, f, g, h] = x;
    add(a, b, c, d, e, f, g, h);
  }
}
#endif

// ---------------------------------------------------------------- regions

// Base is IRegion or ITuple. D provides `X &obj()` and `const X &obj() const`.
template<class Base, class D, class X, bool Writable, class... Ts>
struct Region : Base {
  typedef typename Make_iseq<sizeof...(Ts)>::type seq;
  X &x() const { return const_cast<D *>(static_cast<const D *>(this))->obj(); }
  const X &cx() const { return x(); }

  Fmt fmt() const override { return fmt_of(X::storage_endianess, X::storage_signed_mode); }
  bool writable() const override { return Writable; }
  std::vector<Type_info_> types() const override { return types_of<Ts...>(); }
  size_t size() const override {
    size_t s = X::size;
    return s;
  }
  size_t distance() const override { return static_cast<size_t>(std::distance(cx().begin(), cx().end())); }
  size_t tuple_size() const override { return std::tuple_size<X>::value; }
  template<size_t... Is>
  static bool elements_ok(Iseq<Is...>) {
    bool ok[] = {true, std::is_same<typename std::tuple_element<Is, X>::type, typename Elt<Ts>::type>::value...,
                 std::is_same<decltype(std::declval<const X &>().template get<Is>()), typename Elt<Ts>::type>::value...,
                 std::is_same<typename X::template arg_t<Is>, Ts>::value...};
    for (size_t i = 0; i < sizeof ok / sizeof *ok; i++)
      if (!ok[i])
        return false;
    return true;
  }
  bool consistent() const override { return cx().src() == cx().begin() && elements_ok(seq{}); }

  int get_notations() const override {
    return sizeof...(Ts) <= 8 ? 5 : 4; // the last one is 3 again before C++17
  }
  template<size_t I>
  static Vals get_i(X &x, int how) {
    using upd::get;
    typedef typename At<I, Ts...>::type T;
    Vals v;
    const X &c = x;
    switch (how) {
    case 0: {
      Lib l;
      typename Elt<T>::type e = x.template get<I>();
      Pause p;
      Codec<typename Elt<T>::type>::flatten(e, v);
      break;
    }
    case 1: {
      Lib l;
      typename Elt<T>::type e = c.template get<I>();
      Pause p;
      Codec<typename Elt<T>::type>::flatten(e, v);
      break;
    }
    case 2: {
      Lib l;
      auto e = upd::get<I>(x);
      Pause p;
      Codec<decltype(e)>::flatten(e, v);
      break;
    }
    default: {
      Lib l;
      auto e = get<I>(c);
      Pause p;
      Codec<decltype(e)>::flatten(e, v);
    }
    }
    return v;
  }
  template<size_t... Is>
  Vals get_impl(size_t i, int how, Iseq<Is...>) const {
    typedef Vals (*F)(X &, int);
    static const F table[] = {get_i<Is>...};
    return table[i](x(), how);
  }
  Vals get(size_t i, int how) const override {
#if __cplusplus >= 201703L
    if (how == 4) {
      std::vector<Vals> all;
      bind_all(cx(), all);
      return all[i];
    }
#endif
    return get_impl(i, how, seq{});
  }

  int set_notations() const override { return Writable ? 3 : 0; }
  template<size_t I, class Y>
  static void set_i(Y &x, const Vals &v, int how) {
    using upd::set;
    typedef typename At<I, Ts...>::type T;
    Holder<T> h;
    const V *p = v.data();
    h.load(p);
    const T &value = h.v;
    Lib l;
    switch (how) {
    case 0:
      x.template set<I>(value);
      break;
    case 1:
      upd::set<I>(x, value);
      break;
    default:
      set<I>(x, h.v);
    }
  }
  template<size_t... Is>
  void set_impl(size_t i, const Vals &v, int how, Iseq<Is...>, std::true_type) {
    typedef void (*F)(X &, const Vals &, int);
    static const F table[] = {set_i<Is, X>...};
    table[i](x(), v, how);
  }
  template<size_t... Is>
  void set_impl(size_t, const Vals &, int, Iseq<Is...>, std::false_type) {}
  void set(size_t i, const Vals &v, int how) override {
    set_impl(i, v, how, seq{}, std::integral_constant<bool, Writable>{});
  }

  int invoke_notations() const override { return 6; }
  bool invoke(int how, std::vector<Vals> &args, unsigned &calls) const override {
    g_invocation.args = &args;
    g_invocation.calls = &calls;
    unsigned r = 0xc0ffee00u + sizeof...(Ts);
    switch (how) {
    case 0: {
      Inv_ref<Ts...> f;
      Lib l;
      r = cx().invoke(f);
      break;
    }
    case 1: {
      Lib l;
      r = cx().invoke(Inv_value<Ts...>{});
      break;
    }
    case 2: {
      Lib l;
      r = x().invoke(inv_function<Ts...>);
      break;
    }
    case 3: {
      Lib l;
      r = cx().invoke(&inv_function<Ts...>);
      break;
    }
    case 4: {
      const Inv_value<Ts...> f = {};
      Lib l;
      r = x().invoke(f);
      break;
    }
    default: {
      Lib l;
      cx().invoke(Inv_void<Ts...>{});
    }
    }
    return r == 0xc0ffee00u + sizeof...(Ts);
  }

  template<class Y>
  static void poke_it(Y &x, size_t k, uint8_t b, std::true_type) {
    auto it = x.begin();
    std::advance(it, k);
    *it = b;
  }
  template<class Y>
  static void poke_it(Y &, size_t, uint8_t, std::false_type) {}
  void poke_through_region(size_t k, uint8_t b) override {
    poke_it(x(), k, b, std::integral_constant<bool, Writable>{});
  }
  uint8_t peek_through_region(size_t k) const override {
    auto it = cx().begin();
    std::advance(it, k);
    return *it;
  }
};

// ---------------------------------------------------------------- views over owned storage

// Iterator kinds
struct K_pointer {
  typedef upd::byte_t *it;
  static const bool writable = true;
  static const char *name() { return "pointer"; }
  Block c;
  explicit K_pointer(const Bytes &b) : c(b) {}
  it at(size_t k) { return c.p.get() + k; }
  Bytes dump() const { return c.bytes(); }
  void poke(size_t k, uint8_t b) { c.p[k] = b; }
};
struct K_const_pointer : K_pointer {
  typedef const upd::byte_t *it;
  static const bool writable = false;
  static const char *name() { return "const pointer"; }
  explicit K_const_pointer(const Bytes &b) : K_pointer(b) {}
  it at(size_t k) { return c.p.get() + k; }
};
template<class C, bool Const>
struct K_container {
  typedef typename std::conditional<Const, typename C::const_iterator, typename C::iterator>::type it;
  static const bool writable = !Const;
  C c;
  explicit K_container(const Bytes &b) : c(b.begin(), b.end()) {}
  it at(size_t k) {
    it i = c.begin();
    std::advance(i, k);
    return i;
  }
  Bytes dump() const { return Bytes(c.begin(), c.end()); }
  void poke(size_t k, uint8_t b) {
    typename C::iterator i = c.begin();
    std::advance(i, k);
    *i = b;
  }
};
struct K_vector : K_container<std::vector<upd::byte_t>, false> {
  explicit K_vector(const Bytes &b) : K_container(b) {}
  static const char *name() { return "vector"; }
};
struct K_const_vector : K_container<std::vector<upd::byte_t>, true> {
  explicit K_const_vector(const Bytes &b) : K_container(b) {}
  static const char *name() { return "const vector"; }
};
struct K_deque : K_container<std::deque<upd::byte_t>, false> {
  explicit K_deque(const Bytes &b) : K_container(b) {}
  static const char *name() { return "deque"; }
};
struct K_list : K_container<std::list<upd::byte_t>, false> {
  explicit K_list(const Bytes &b) : K_container(b) {}
  static const char *name() { return "list"; }
};
struct K_const_list : K_container<std::list<upd::byte_t>, true> {
  explicit K_const_list(const Bytes &b) : K_container(b) {}
  static const char *name() { return "const list"; }
};
struct K_forward {
  typedef Fwd_it it;
  static const bool writable = true;
  static const char *name() { return "forward"; }
  Block c;
  size_t lo, hi; // the iterator may only touch this part
  explicit K_forward(const Bytes &b) : c(b), lo(0), hi(b.size()) {}
  it at(size_t k) { return Fwd_it(c.p.get() + k, c.p.get() + lo, c.p.get() + hi); }
  Bytes dump() const { return c.bytes(); }
  void poke(size_t k, uint8_t b) { c.p[k] = b; }
};
template<class K>
void restrict_range(K &, size_t, size_t) {}
inline void restrict_range(K_forward &k, size_t lo, size_t hi) {
  k.lo = lo;
  k.hi = hi;
}

template<class K, upd::endianess E, upd::signed_mode S, class... Ts>
struct View_region
    : Region<IRegion, View_region<K, E, S, Ts...>, upd::tuple_view<typename K::it, E, S, Ts...>, K::writable, Ts...> {
  typedef upd::tuple_view<typename K::it, E, S, Ts...> X;
  K storage;
  size_t off;
  std::unique_ptr<X> v;
  View_region(const Bytes &b, size_t o, int how) : storage(b), off(o) {
    restrict_range(storage, o, o + wire_size_of());
    typename K::it it = storage.at(o);
    if (how == 0)
      v.reset(new X(it));
    else if (how == 1)
      v.reset(new X(upd::make_view<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, it)));
    else {
      X a(it);
      v.reset(new X(a)); // views are copyable
    }
  }
  static size_t wire_size_of() {
    size_t n = 0;
    std::vector<Type_info_> t = types_of<Ts...>();
    for (size_t i = 0; i < t.size(); i++)
      n += wire_size(t[i].leaves);
    return n;
  }
  X &obj() { return *v; }
  std::string kind() const override { return std::string("view over ") + K::name(); }
  size_t offset() const override { return off; }
  Bytes dump() const override { return storage.dump(); }
  void poke(size_t k, uint8_t b) override { storage.poke(k, b); }
  static std::unique_ptr<IRegion> make(const Bytes &b, size_t o, int how) {
    return std::unique_ptr<IRegion>(new View_region(b, o, how));
  }
};

// ---------------------------------------------------------------- slices of tuples

template<class Tup, class X, bool Writable, class... Ts>
struct Slice_region : Region<IRegion, Slice_region<Tup, X, Writable, Ts...>, X, Writable, Ts...> {
  X v;
  Tup *owner;
  size_t off;
  Slice_region(const X &x, Tup *o, size_t offset) : v(x), owner(o), off(offset) {}
  X &obj() { return v; }
  std::string kind() const override { return Writable ? "slice" : "slice of const"; }
  size_t offset() const override { return off; }
  Bytes dump() const override { return Bytes(owner->begin(), owner->end()); }
  void poke(size_t k, uint8_t b) override { (*owner)[k] = b; }
};

template<std::size_t I, std::size_t L>
struct Slice {};

// Types of elements [I, I + L) of Ts... as a List
template<class S, std::size_t I, class... Ts>
struct Sub_impl;
template<std::size_t... Is, std::size_t I, class... Ts>
struct Sub_impl<Iseq<Is...>, I, Ts...> {
  typedef List<typename At<I + Is, Ts...>::type...> type;
};

template<class Tup, bool Writable, class X, class... Ts>
std::unique_ptr<IRegion> make_slice_region(const X &x, Tup *owner, size_t off, List<Ts...>) {
  return std::unique_ptr<IRegion>(new Slice_region<Tup, X, Writable, Ts...>(x, owner, off));
}

// ---------------------------------------------------------------- tuples

template<class Slices, upd::endianess E, upd::signed_mode S, class... Ts>
struct Tuple_region;
template<std::size_t... Ss, std::size_t... Ls, upd::endianess E, upd::signed_mode S, class... Ts>
struct Tuple_region<List<Slice<Ss, Ls>...>, E, S, Ts...>
    : Region<ITuple, Tuple_region<List<Slice<Ss, Ls>...>, E, S, Ts...>, upd::tuple<E, S, Ts...>, true, Ts...> {
  typedef upd::tuple<E, S, Ts...> X;
  std::unique_ptr<X> t;
  Tuple_region() : t(build<X>()) {}
  explicit Tuple_region(X *x) : t(x) {}
  X &obj() { return *t; }
  std::string kind() const override { return "tuple"; }
  size_t offset() const override { return 0; }
  Bytes dump() const override { return Bytes(t->begin(), t->begin() + wire()); }
  static size_t wire() {
    size_t n = 0;
    std::vector<Type_info_> y = types_of<Ts...>();
    for (size_t i = 0; i < y.size(); i++)
      n += wire_size(y[i].leaves);
    return n;
  }
  void poke(size_t k, uint8_t b) override { t->begin()[k] = b; }
  uint8_t index(size_t k) const override {
    const X &c = *t;
    return k % 2 ? c[k] : (*t)[k];
  }
  void set_index(size_t k, uint8_t b) override { (*t)[k] = b; }
  size_t object_size() const override { return sizeof(X); }
  std::unique_ptr<ITuple> clone(int how) const override {
    X *n;
    if (how == 0)
      n = build<X>(*static_cast<const X *>(t.get()));
    else if (how == 1) {
      n = build<X>();
      Lib l;
      *n = *static_cast<const X *>(t.get());
    } else {
      X tmp(*t);
      n = build<X>(std::move(tmp));
    }
    return std::unique_ptr<ITuple>(new Tuple_region(n));
  }
  void assign_same(const ITuple &o) override { *t = *static_cast<const Tuple_region &>(o).t; }

  size_t slice_count() const override { return sizeof...(Ss); }
  typedef std::unique_ptr<IRegion> (*Maker)(X *, int, bool);
  template<std::size_t I, std::size_t L>
  static std::unique_ptr<IRegion> make_slice(X *x, int how, bool konst) {
    size_t off = 0;
    std::vector<Type_info_> y = types_of<Ts...>();
    for (size_t i = 0; i < I; i++)
      off += wire_size(y[i].leaves);
    typedef typename Sub_impl<typename Make_iseq<L>::type, I, Ts...>::type sub;
    if (konst) {
      const X *c = x;
      if (how == 0)
        return make_slice_region<X, false>(c->template view<I, L>(), x, off, sub{});
      return make_slice_region<X, false>(upd::make_view<I, L>(*c), x, off, sub{});
    }
    if (how == 0)
      return make_slice_region<X, true>(x->template view<I, L>(), x, off, sub{});
    return make_slice_region<X, true>(upd::make_view<I, L>(*x), x, off, sub{});
  }
  std::unique_ptr<IRegion> slice(size_t k, int how, bool konst, size_t &first, size_t &length) override {
    static const Maker table[] = {make_slice<Ss, Ls>..., nullptr};
    static const size_t is[] = {Ss..., 0}, ls[] = {Ls..., 0};
    first = is[k];
    length = ls[k];
    return table[k](t.get(), how, konst);
  }

  static std::unique_ptr<ITuple> make() { return std::unique_ptr<ITuple>(new Tuple_region); }
  typedef typename Make_iseq<sizeof...(Ts)>::type seq;
  template<std::size_t... Is>
  static X *from(const Vals &flat, int how, Iseq<Is...>) {
    Holders<Ts...> h(flat);
    (void)h;
    switch (how) {
    case 0:
      return build<X>(cell<Is>(h)...);
    case 1: {
      void *m = ::operator new(sizeof(X));
      Lib l;
      return ::new (m) X(upd::make_tuple(upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, cell<Is>(h)...));
    }
    case 2: {
      void *m = ::operator new(sizeof(X));
      Lib l;
      X d = upd::make_tuple<Ts...>(upd::endianess_h<E>{}, upd::signed_mode_h<S>{});
      int dummy[] = {0, (d.template set<Is>(cell<Is>(h)), 0)...};
      (void)dummy;
      return ::new (m) X(d);
    }
    default:
#if __cplusplus >= 201703L
      return build<X>(deduced(h, seq{}));
#else
      return build<X>(cell<Is>(h)...);
#endif
    }
  }
#if __cplusplus >= 201703L
  template<std::size_t... Is>
  static X deduced(Holders<Ts...> &h, Iseq<Is...>) {
    upd::tuple t{upd::endianess_h<E>{}, upd::signed_mode_h<S>{}, cell<Is>(h)...};
    return t;
  }
#endif
  static std::unique_ptr<ITuple> make_from(const std::vector<Vals> &v, int how) {
    Vals flat;
    for (size_t i = 0; i < v.size(); i++)
      flat.insert(flat.end(), v[i].begin(), v[i].end());
    return std::unique_ptr<ITuple>(new Tuple_region(from(flat, how, seq{})));
  }
};

// ---------------------------------------------------------------- assignments

// Storage kinds for assignments: a tuple or a view
template<upd::endianess E, upd::signed_mode S, class... Ts>
struct A_tuple {
  typedef upd::tuple<E, S, Ts...> X;
  static const bool is_view = false;
  static std::string name() { return "tuple"; }
  static Fmt fmt() { return fmt_of(E, S); }
  std::unique_ptr<X> t;
  explicit A_tuple(const Bytes &b) : t(new X) {
    for (size_t i = 0; i < b.size(); i++)
      t->begin()[i] = b[i];
  }
  X &get() { return *t; }
  Bytes dump(size_t n) const { return Bytes(t->begin(), t->begin() + n); }
};
template<class K, upd::endianess E, upd::signed_mode S, class... Ts>
struct A_view {
  typedef upd::tuple_view<typename K::it, E, S, Ts...> X;
  typedef typename K::it it;
  static const bool is_view = true;
  static std::string name() { return std::string("view over ") + K::name(); }
  static Fmt fmt() { return fmt_of(E, S); }
  K k;
  X v;
  explicit A_view(const Bytes &b) : k(b), v(k.at(0)) {}
  X &get() { return v; }
  Bytes dump(size_t) const { return k.dump(); }
};

template<class Dst, class Src, bool Const>
struct Assign {
  static void run(const Bytes &d, const Bytes &s, Bytes &dout, Bytes &sout) {
    Dst dst(d);
    Src src(s);
    {
      Lib l;
      if (Const) {
        const typename Src::X &c = src.get();
        dst.get() = c;
      } else
        dst.get() = src.get();
    }
    dout = dst.dump(d.size());
    sout = src.dump(s.size());
  }
};
// Same storage: both are views over pointers
template<class Dst, class Src>
struct Overlap {
  static void run(Bytes &b, size_t d, size_t s) {
    Block block(b);
    typename Dst::X dst(block.p.get() + d);
    typename Src::X src(block.p.get() + s);
    {
      Lib l;
      dst = src;
    }
    b = block.bytes();
  }
};

// ---------------------------------------------------------------- registration

template<class... Ts>
Typelist *new_typelist(const char *name) {
  Typelist *t = new Typelist;
  t->name = name;
  t->types = types_of<Ts...>();
  typelists().push_back(t);
  return t;
}
template<class Slices, upd::endianess E, upd::signed_mode S, class... Ts>
void add_tuple(Typelist *t) {
  typedef Tuple_region<Slices, E, S, Ts...> R;
  Tuple_factory f;
  f.fmt = fmt_of(E, S);
  f.make = R::make;
  f.from_notations = 4;
  f.make_from = R::make_from;
  t->tuples.push_back(f);
}
template<class K, upd::endianess E, upd::signed_mode S, class... Ts>
void add_view(Typelist *t) {
  typedef View_region<K, E, S, Ts...> R;
  View_factory f;
  f.fmt = fmt_of(E, S);
  f.kind = K::name();
  f.notations = 3;
  f.make = R::make;
  t->views.push_back(f);
}
template<class Dst, class Src, bool Const>
void add_assign(Typelist *t) {
  Assignment a;
  a.dst = Dst::fmt();
  a.src = Src::fmt();
  a.kind = Dst::name() + " = " + (Const ? "const " : "") + Src::name();
  a.run = Assign<Dst, Src, Const>::run;
  a.overlap = nullptr;
  t->assigns.push_back(a);
}
template<class Dst, class Src>
void add_overlap(Typelist *t) {
  Assignment a;
  a.dst = Dst::fmt();
  a.src = Src::fmt();
  a.kind = "overlapping " + Dst::name() + " = " + Src::name();
  a.run = nullptr;
  a.overlap = Overlap<Dst, Src>::run;
  t->assigns.push_back(a);
}
