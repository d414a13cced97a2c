// Shared by all adapters. C++11.
#pragma once
#include <array>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

#include "erased.hpp"

// ---------------------------------------------------------------- shape of C++ types (independent of the library)

template<class T, class = void>
struct Codec;

template<class T>
struct Codec<T, typename std::enable_if<std::is_integral<T>::value>::type> {
  static void leaves(Leaves &l) {
    Leaf x = {std::is_same<T, bool>::value ? 'b' : std::is_signed<T>::value ? 's' : 'u', sizeof(T)};
    l.push_back(x);
  }
  static void flatten(const T &x, Vals &v) { v.push_back(static_cast<V>(x)); }
  static void load(T &x, const V *&p) { x = static_cast<T>(*p++); }
  static std::string name() {
    return (std::is_same<T, bool>::value ? "b" : std::is_signed<T>::value ? "s" : "u") + std::to_string(8 * sizeof(T));
  }
};
template<class T, std::size_t N>
struct Codec<T[N], void> {
  static void leaves(Leaves &l) {
    for (std::size_t i = 0; i < N; i++)
      Codec<T>::leaves(l);
  }
  static void flatten(const T (&x)[N], Vals &v) {
    for (std::size_t i = 0; i < N; i++)
      Codec<T>::flatten(x[i], v);
  }
  static void load(T (&x)[N], const V *&p) {
    for (std::size_t i = 0; i < N; i++)
      Codec<T>::load(x[i], p);
  }
  static std::string name() { return Codec<T>::name() + "[" + std::to_string(N) + "]"; }
};
template<class T, std::size_t N>
struct Codec<std::array<T, N>, void> {
  static void leaves(Leaves &l) {
    for (std::size_t i = 0; i < N; i++)
      Codec<T>::leaves(l);
  }
  static void flatten(const std::array<T, N> &x, Vals &v) {
    for (std::size_t i = 0; i < N; i++)
      Codec<T>::flatten(x[i], v);
  }
  static void load(std::array<T, N> &x, const V *&p) {
    for (std::size_t i = 0; i < N; i++)
      Codec<T>::load(x[i], p);
  }
  static std::string name() { return "array<" + Codec<T>::name() + "," + std::to_string(N) + ">"; }
};
template<>
struct Codec<void, void> {
  static void leaves(Leaves &) {}
  static std::string name() { return "void"; }
};

template<class T>
Leaves leaves_of() {
  Leaves l;
  Codec<T>::leaves(l);
  return l;
}

template<class T>
struct Holder {
  T v;
  void load(const V *&p) { Codec<T>::load(v, p); }
};

// What get() gives back
template<class T>
struct Elt {
  typedef T type;
};
template<class T, std::size_t N>
struct Elt<T[N]> {
  typedef std::array<T, N> type;
};

// How functions take their parameters
template<class T>
struct By_ref {
  typedef const T &type;
};
template<class T>
struct By_value {
  typedef T type;
};
template<class T, std::size_t N>
struct By_value<T[N]> {
  typedef const T (&type)[N];
};

template<class T>
struct Bare {
  typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type;
};

// ---------------------------------------------------------------- metaprogramming

template<std::size_t... Is>
struct Iseq {};
template<std::size_t N, std::size_t... Is>
struct Make_iseq : Make_iseq<N - 1, N - 1, Is...> {};
template<std::size_t... Is>
struct Make_iseq<0, Is...> {
  typedef Iseq<Is...> type;
};
template<class... Ts>
struct List {
  static const std::size_t size = sizeof...(Ts);
};
template<std::size_t I, class... Ts>
struct At;
template<std::size_t I, class T, class... Ts>
struct At<I, T, Ts...> : At<I - 1, Ts...> {};
template<class T, class... Ts>
struct At<0, T, Ts...> {
  typedef T type;
};
template<std::size_t I, class T>
struct Cell {
  Holder<T> h;
};
template<class S, class... Ts>
struct Holders_impl;
template<std::size_t... Is, class... Ts>
struct Holders_impl<Iseq<Is...>, Ts...> : Cell<Is, Ts>... {
  explicit Holders_impl(const Vals &v) {
    const V *p = v.data();
    int dummy[] = {0, (static_cast<Cell<Is, Ts> *>(this)->h.load(p), 0)...};
    (void)dummy;
    (void)p;
  }
};
template<class... Ts>
struct Holders : Holders_impl<typename Make_iseq<sizeof...(Ts)>::type, Ts...> {
  typedef typename Make_iseq<sizeof...(Ts)>::type seq;
  explicit Holders(const Vals &v) : Holders_impl<seq, Ts...>(v) {}
};
template<std::size_t I, class T>
T &cell(Cell<I, T> &c) {
  return c.h.v;
}

inline std::vector<Vals> split(const Vals &v, const std::vector<size_t> &sizes) {
  std::vector<Vals> r;
  size_t k = 0;
  for (size_t i = 0; i < sizes.size(); i++) {
    r.push_back(Vals(v.begin() + static_cast<long>(k), v.begin() + static_cast<long>(k + sizes[i])));
    k += sizes[i];
  }
  return r;
}

// ---------------------------------------------------------------- byte streams in every notation

// Function notation: the current stream belongs to the context
inline unsigned char src_function() { return g_src->next(); }
inline void sink_function(unsigned char b) { g_sink->put(b); }

struct Src_functor {
  Source *s;
  unsigned char operator()() { return s->next(); }
};
struct Sink_functor {
  Sink *s;
  void operator()(unsigned char b) { s->put(b); }
};

// Single-pass input iterator: every byte is requested when it is dereferenced-and-incremented
class Src_iterator {
public:
  typedef std::input_iterator_tag iterator_category;
  typedef unsigned char value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const unsigned char *pointer;
  typedef unsigned char reference;
  explicit Src_iterator(Source *s) : m_s(s) {}
  struct Proxy {
    unsigned char b;
    unsigned char operator*() const { return b; }
  };
  unsigned char operator*() const {
    Pause p;
    return m_s->pos < m_s->data.size() ? m_s->data[m_s->pos] : 0xa5;
  }
  Src_iterator &operator++() {
    m_s->next();
    return *this;
  }
  Proxy operator++(int) {
    Proxy p = {m_s->next()};
    return p;
  }
  bool operator==(const Src_iterator &o) const { return m_s == o.m_s; }
  bool operator!=(const Src_iterator &o) const { return m_s != o.m_s; }

private:
  Source *m_s;
};
class Sink_iterator {
public:
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type;
  typedef void difference_type;
  typedef void pointer;
  typedef void reference;
  explicit Sink_iterator(Sink *s) : m_s(s) {}
  struct Proxy {
    Sink *s;
    Proxy &operator=(unsigned char b) {
      s->put(b);
      return *this;
    }
  };
  Proxy operator*() const {
    Proxy p = {m_s};
    return p;
  }
  Sink_iterator &operator++() { return *this; }
  Sink_iterator &operator++(int) { return *this; }

private:
  Sink *m_s;
};

// Forward iterator checking its own range
class Fwd_it {
public:
  typedef std::forward_iterator_tag iterator_category;
  typedef unsigned char value_type;
  typedef std::ptrdiff_t difference_type;
  typedef unsigned char *pointer;
  typedef unsigned char &reference;
  Fwd_it() : m_p(nullptr), m_lo(nullptr), m_hi(nullptr) {}
  Fwd_it(unsigned char *p, unsigned char *lo, unsigned char *hi) : m_p(p), m_lo(lo), m_hi(hi) {}
  reference operator*() const {
    static thread_local unsigned char nowhere;
    if (m_p < m_lo || m_p >= m_hi) {
      g_iterator_errors++;
      nowhere = 0x5a;
      return nowhere;
    }
    if (current_context()->nest_in) {
      Pause p;
      nest_point();
    }
    return *m_p;
  }
  pointer operator->() const { return &**this; }
  Fwd_it &operator++() {
    if (m_p >= m_hi)
      g_iterator_errors++;
    else
      ++m_p;
    return *this;
  }
  Fwd_it operator++(int) {
    Fwd_it r = *this;
    ++*this;
    return r;
  }
  bool operator==(const Fwd_it &o) const { return m_p == o.m_p; }
  bool operator!=(const Fwd_it &o) const { return m_p != o.m_p; }

private:
  unsigned char *m_p, *m_lo, *m_hi;
};

// Bytes in a heap block of exactly the right size, so that any overrun is seen by ASan
struct Block {
  std::unique_ptr<unsigned char[]> p;
  size_t n;
  explicit Block(const Bytes &b) : p(new unsigned char[b.size()]), n(b.size()) {
    if (n)
      std::memcpy(p.get(), b.data(), n);
  }
  explicit Block(size_t size) : p(new unsigned char[size]), n(size) { std::memset(p.get(), 0xcd, size ? size : 0); }
  Bytes bytes() const { return Bytes(p.get(), p.get() + n); }
};

enum { ARRAY_SIZE = 512 };

inline Bytes rest(const Source &s) { return Bytes(s.data.begin() + static_cast<long>(s.pos), s.data.end()); }

// Call `op` with an input in the requested notation
template<class R, class Op>
struct With_input {
  static R lambda(Source &s, Op &op) {
    Source *p = &s;
    auto f = [p]() -> unsigned char { return p->next(); };
    Lib l;
    return op(f);
  }
  static R functor(Source &s, Op &op) {
    Lib l;
    return op(Src_functor{&s});
  }
  static R function(Source &s, Op &op) {
    g_src = &s;
    Lib l;
    return op(src_function);
  }
  static R stateful(Source &s, Op &op) {
    struct {
      Source *s;
      size_t pos;
      unsigned char operator()() {
        s->pos = pos;
        unsigned char b = s->next();
        pos = s->pos;
        return b;
      }
    } f = {&s, s.pos};
    struct Guard {
      Source &s;
      const size_t &pos;
      ~Guard() { s.pos = pos; }
    } guard = {s, f.pos};
    Lib l;
    return op(f);
  }
  static R constant(Source &s, Op &op) {
    const struct {
      Source *s;
      unsigned char operator()() const { return s->next(); }
    } f = {&s};
    Lib l;
    return op(f);
  }
  static R iterator(Source &s, Op &op) {
    Lib l;
    return op(Src_iterator(&s));
  }
  static R pointer(Source &s, Op &op) {
    Block b(rest(s));
    unsigned char *p = b.p.get();
    Lib l;
    return op(p);
  }
  static R const_pointer(Source &s, Op &op) {
    Block b(rest(s));
    Lib l;
    return op(const_cast<const unsigned char *>(b.p.get()));
  }
  static R vector(Source &s, Op &op) {
    std::vector<unsigned char> v = rest(s);
    Lib l;
    return op(v.cbegin());
  }
  static R list(Source &s, Op &op) {
    Bytes r = rest(s);
    std::list<unsigned char> v(r.begin(), r.end());
    auto it = v.begin();
    Lib l;
    return op(it);
  }
  static R forward(Source &s, Op &op) {
    Block b(rest(s));
    Fwd_it it(b.p.get(), b.p.get(), b.p.get() + b.n);
    Lib l;
    return op(it);
  }
  static R string(Source &s, Op &op) {
    Bytes r = rest(s);
    std::string v(r.begin(), r.end());
    Lib l;
    return op(v.begin());
  }
  static R array(Source &s, Op &op) {
    Bytes r = rest(s);
    if (r.size() > ARRAY_SIZE)
      return pointer(s, op);
    unsigned char a[ARRAY_SIZE];
    std::memset(a, 0x5a, sizeof a);
    std::copy(r.begin(), r.end(), a);
    Lib l;
    return op(a);
  }
};
// Rich: every notation is instantiated; otherwise only a few
template<bool Rich, class R, class Op>
typename std::enable_if<Rich, R>::type with_input(int how, Source &s, Op op) {
  typedef With_input<R, Op> W;
  switch (how) {
  case IN_FUNCTOR_RVALUE:
    return W::functor(s, op);
  case IN_FUNCTION:
    return W::function(s, op);
  case IN_STATEFUL:
    return W::stateful(s, op);
  case IN_CONST:
    return W::constant(s, op);
  case IN_INPUT_ITERATOR:
    return W::iterator(s, op);
  case IN_POINTER:
    return W::pointer(s, op);
  case IN_CONST_POINTER:
    return W::const_pointer(s, op);
  case IN_VECTOR:
    return W::vector(s, op);
  case IN_LIST:
    return W::list(s, op);
  case IN_FORWARD:
    return W::forward(s, op);
  case IN_STRING:
    return W::string(s, op);
  case IN_ARRAY:
    return W::array(s, op);
  default:
    return W::lambda(s, op);
  }
}
template<bool Rich, class R, class Op>
typename std::enable_if<!Rich, R>::type with_input(int how, Source &s, Op op) {
  typedef With_input<R, Op> W;
  switch (how) {
  case IN_POINTER:
  case IN_CONST_POINTER:
  case IN_VECTOR:
  case IN_LIST:
  case IN_FORWARD:
  case IN_STRING:
  case IN_ARRAY:
    return W::pointer(s, op);
  default:
    return W::lambda(s, op);
  }
}

// Call `op` with an output in the requested notation. `n`: number of bytes a pointer-like output has room for.
template<class R, class Op>
struct With_output {
  static R lambda(Sink &s, Op &op) {
    Sink *p = &s;
    auto f = [p](unsigned char b) { p->put(b); };
    Lib l;
    return op(f);
  }
  static R functor(Sink &s, Op &op) {
    Lib l;
    return op(Sink_functor{&s});
  }
  static R function(Sink &s, Op &op) {
    g_sink = &s;
    Lib l;
    return op(sink_function);
  }
  static R stateful(Sink &s, Op &op) {
    struct {
      Sink *s;
      size_t n;
      void operator()(unsigned char b) {
        {
          Pause p;
          s->data.resize(n);
        }
        s->put(b);
        n = s->data.size();
      }
    } f = {&s, s.data.size()};
    struct Guard {
      Sink &s;
      const size_t &n;
      ~Guard() {
        Pause p;
        s.data.resize(n);
      }
    } guard = {s, f.n};
    Lib l;
    return op(f);
  }
  static R constant(Sink &s, Op &op) {
    const struct {
      Sink *s;
      void operator()(unsigned char b) const noexcept { s->put(b); }
    } f = {&s};
    Lib l;
    return op(f);
  }
  static R back_inserter(Sink &s, Op &op) {
    return op(std::back_inserter(s.data)); // allocates by itself
  }
  static R iterator(Sink &s, Op &op) {
    Lib l;
    return op(Sink_iterator(&s));
  }
  struct Collect {
    Sink &s;
    Block &b;
    ~Collect() { s.data.insert(s.data.end(), b.p.get(), b.p.get() + b.n); }
  };
  static R pointer(Sink &s, Op &op) {
    Block b(s.room);
    Collect c = {s, b};
    Lib l;
    return op(b.p.get());
  }
  static R vector(Sink &s, Op &op) {
    Block b(s.room);
    Collect c = {s, b};
    std::vector<unsigned char> v(s.room, 0xcd);
    struct Copy {
      std::vector<unsigned char> &v;
      Block &b;
      ~Copy() {
        Pause p;
        if (b.n)
          std::memcpy(b.p.get(), v.data(), b.n);
      }
    } copy = {v, b};
    Lib l;
    return op(v.begin());
  }
  static R list(Sink &s, Op &op) {
    Block b(s.room);
    Collect c = {s, b};
    std::list<unsigned char> v(s.room, 0xcd);
    struct Copy {
      std::list<unsigned char> &v;
      Block &b;
      ~Copy() {
        Pause p;
        std::copy(v.begin(), v.end(), b.p.get());
      }
    } copy = {v, b};
    Lib l;
    return op(v.begin());
  }
  static R string(Sink &s, Op &op) {
    Block b(s.room);
    Collect c = {s, b};
    Lib l;
    return op(reinterpret_cast<char *>(b.p.get()));
  }
  static R array(Sink &s, Op &op) {
    if (s.room > ARRAY_SIZE)
      return pointer(s, op);
    unsigned char a[ARRAY_SIZE];
    std::memset(a, 0xcd, sizeof a);
    // Past the room of the output, nothing may change
    struct Copy {
      Sink &s;
      const unsigned char *a;
      ~Copy() {
        Pause p;
        size_t n = ARRAY_SIZE;
        while (n > s.room && a[n - 1] == 0xcd)
          n--;
        s.data.insert(s.data.end(), a, a + n);
      }
    } copy = {s, a};
    Lib l;
    return op(a);
  }
};
template<bool Rich, class R, class Op>
typename std::enable_if<Rich, R>::type with_output(int how, Sink &s, Op op) {
  typedef With_output<R, Op> W;
  switch (how) {
  case OUT_FUNCTOR_RVALUE:
    return W::functor(s, op);
  case OUT_FUNCTION:
    return W::function(s, op);
  case OUT_STATEFUL:
    return W::stateful(s, op);
  case OUT_CONST:
    return W::constant(s, op);
  case OUT_BACK_INSERTER:
    return W::back_inserter(s, op);
  case OUT_OUTPUT_ITERATOR:
    return W::iterator(s, op);
  case OUT_POINTER:
    return W::pointer(s, op);
  case OUT_VECTOR:
    return W::vector(s, op);
  case OUT_LIST:
    return W::list(s, op);
  case OUT_STRING:
    return W::string(s, op);
  case OUT_ARRAY:
    return W::array(s, op);
  default:
    return W::lambda(s, op);
  }
}
template<bool Rich, class R, class Op>
typename std::enable_if<!Rich, R>::type with_output(int how, Sink &s, Op op) {
  typedef With_output<R, Op> W;
  switch (how) {
  case OUT_POINTER:
  case OUT_VECTOR:
  case OUT_LIST:
  case OUT_STRING:
  case OUT_ARRAY:
    return W::pointer(s, op);
  default:
    return W::lambda(s, op);
  }
}
