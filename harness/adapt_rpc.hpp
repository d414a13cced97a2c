// Adapters over keys, keyrings, actions and dispatchers
#pragma once
#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
#include <upd/typelist.hpp>
#include <upd/unevaluated.hpp>

#include "adapt_upd.hpp"

// ---------------------------------------------------------------- input and output notations as types

template<int I>
struct In_;
template<int O>
struct Out_;
#define NOTATION_IN(I, NAME)                                                                                           \
  template<>                                                                                                           \
  struct In_<I> {                                                                                                      \
    template<class R, class Op>                                                                                        \
    static R go(Source &s, Op &op) {                                                                                   \
      return With_input<R, Op>::NAME(s, op);                                                                           \
    }                                                                                                                  \
  };
#define NOTATION_OUT(O, NAME)                                                                                          \
  template<>                                                                                                           \
  struct Out_<O> {                                                                                                     \
    template<class R, class Op>                                                                                        \
    static R go(Sink &s, Op &op) {                                                                                     \
      return With_output<R, Op>::NAME(s, op);                                                                          \
    }                                                                                                                  \
  };
NOTATION_IN(IN_LAMBDA, lambda)
NOTATION_IN(IN_FUNCTOR_RVALUE, functor)
NOTATION_IN(IN_FUNCTION, function)
NOTATION_IN(IN_STATEFUL, stateful)
NOTATION_IN(IN_CONST, constant)
NOTATION_IN(IN_INPUT_ITERATOR, iterator)
NOTATION_IN(IN_POINTER, pointer)
NOTATION_IN(IN_CONST_POINTER, const_pointer)
NOTATION_IN(IN_VECTOR, vector)
NOTATION_IN(IN_LIST, list)
NOTATION_IN(IN_FORWARD, forward)
NOTATION_IN(IN_STRING, string)
NOTATION_IN(IN_ARRAY, array)
NOTATION_OUT(OUT_LAMBDA, lambda)
NOTATION_OUT(OUT_FUNCTOR_RVALUE, functor)
NOTATION_OUT(OUT_FUNCTION, function)
NOTATION_OUT(OUT_STATEFUL, stateful)
NOTATION_OUT(OUT_CONST, constant)
NOTATION_OUT(OUT_BACK_INSERTER, back_inserter)
NOTATION_OUT(OUT_OUTPUT_ITERATOR, iterator)
NOTATION_OUT(OUT_POINTER, pointer)
NOTATION_OUT(OUT_VECTOR, vector)
NOTATION_OUT(OUT_LIST, list)
NOTATION_OUT(OUT_STRING, string)
NOTATION_OUT(OUT_ARRAY, array)

template<int I, int O>
struct Io {};
template<int...>
struct Ints {};

// op(input, output)
template<class R, class In, class Op>
struct Io_inner {
  In &&in;
  Op &op;
  template<class Out>
  R operator()(Out &&out) {
    return op(std::forward<In>(in), std::forward<Out>(out));
  }
};
template<int O, class R, class Op>
struct Io_outer {
  Sink &sink;
  Op &op;
  template<class In>
  R operator()(In &&in) {
    Pause p;
    Io_inner<R, In, Op> inner = {std::forward<In>(in), op};
    return Out_<O>::template go<R>(sink, inner);
  }
};
template<int I, int O, class R, class Op>
R one_io(Source &src, Sink &sink, Op &op) {
  Io_outer<O, R, Op> outer = {sink, op};
  return In_<I>::template go<R>(src, outer);
}
template<class R, class Op, int... Is, int... Os>
R with_io(List<Io<Is, Os>...>, size_t io, Source &src, Sink &sink, Op op) {
  typedef R (*F)(Source &, Sink &, Op &);
  static const F table[] = {one_io<Is, Os, R, Op>...};
  return table[io % sizeof...(Is)](src, sink, op);
}
template<int... Is, int... Os>
const std::vector<Io_pair> &io_pairs(List<Io<Is, Os>...>) {
  static const std::vector<Io_pair> v = {Io_pair{Is, Os}...};
  return v;
}
template<class R, class Op, int... Is>
R with_in(Ints<Is...>, int in, Source &src, Op op) {
  typedef R (*F)(Source &, Op &);
  static const F table[] = {In_<Is>::template go<R, Op>...};
  static const int ids[] = {Is...};
  size_t k = 0;
  for (size_t i = 0; i < sizeof...(Is); i++)
    if (ids[i] == in)
      k = i;
  return table[k](src, op);
}
template<class R, class Op, int... Os>
R with_out(Ints<Os...>, int out, Sink &sink, Op op) {
  typedef R (*F)(Sink &, Op &);
  static const F table[] = {Out_<Os>::template go<R, Op>...};
  static const int ids[] = {Os...};
  size_t k = 0;
  for (size_t i = 0; i < sizeof...(Os); i++)
    if (ids[i] == out)
      k = i;
  return table[k](sink, op);
}
// Every notation in `Is`, `times` variants of it
template<int... Is>
std::vector<int> notations(Ints<Is...>, int times) {
  std::vector<int> v;
  const int ids[] = {Is...};
  for (int t = 0; t < times; t++)
    for (size_t i = 0; i < sizeof...(Is); i++)
      v.push_back(ids[i] + t * SHIFT);
  return v;
}

// ---------------------------------------------------------------- functions of the programs

template<class R>
struct Body {
  template<class... Ps>
  static R go(int id, const long *state, const Ps &...ps) {
    Pause p;
    Holder<R> h;
    Vals args;
    int dummy[] = {0, (Codec<Ps>::flatten(ps, args), 0)...};
    (void)dummy;
    if (state)
      args.push_back(*state);
    Vals r = on_call(id, args, leaves_of<R>());
    const V *q = r.data();
    h.load(q);
    return h.v;
  }
};
template<>
struct Body<void> {
  template<class... Ps>
  static void go(int id, const long *state, const Ps &...ps) {
    Pause p;
    Vals args;
    int dummy[] = {0, (Codec<Ps>::flatten(ps, args), 0)...};
    (void)dummy;
    if (state)
      args.push_back(*state);
    on_call(id, args, Leaves());
  }
};

// A function of a keyring
template<int Id, class R, class... Ps>
struct Fn {
  enum { id = Id };
  typedef R ret;
  typedef typename Bare<R>::type bare_ret;
  typedef List<typename Bare<Ps>::type...> params;
  typedef R sig(Ps...);
  static R f(Ps... ps) noexcept(is_nothrow(Id)) { return Body<R>::go(Id, nullptr, ps...); }
  typedef upd::unevaluated<decltype(&Fn::f), &Fn::f> href;
  static Vals direct(const Vals &args) { return call(args, typename Make_iseq<sizeof...(Ps)>::type{}); }
  template<std::size_t... Is>
  static Vals call(const Vals &args, Iseq<Is...>) {
    Holders<typename Bare<Ps>::type...> h(args);
    (void)h;
    return result(std::is_void<R>{}, cell<Is>(h)...);
  }
  template<class... A>
  static Vals result(std::true_type, const A &...a) {
    f(a...);
    return Vals();
  }
  template<class... A>
  static Vals result(std::false_type, const A &...a) {
    Vals v;
    Codec<bare_ret>::flatten(f(a...), v);
    return v;
  }
};
// A functor of a keyring, with static storage duration
template<int Id, class R, class... Ps>
struct Fo : Fn<Id, R, Ps...> {
  struct type {
    R operator()(Ps... ps) const noexcept(is_nothrow(Id)) { return Body<R>::go(Id, nullptr, ps...); }
  };
  static type f;
  typedef upd::unevaluated<type *, &Fo::f> href;
};
template<int Id, class R, class... Ps>
typename Fo<Id, R, Ps...>::type Fo<Id, R, Ps...>::f;

// Another function / functor of the same signature
template<int Id, class Sig>
struct Alt;
template<int Id, class R, class... Ps>
struct Alt<Id, R(Ps...)> {
  static R f(Ps... ps) noexcept(is_nothrow(Id)) { return Body<R>::go(Id, nullptr, ps...); }
  struct type {
    R operator()(Ps... ps) noexcept(is_nothrow(Id + 5)) { return Body<R>::go(Id + 5, nullptr, ps...); }
  };
  static type o;
};
template<int Id, class R, class... Ps>
typename Alt<Id, R(Ps...)>::type Alt<Id, R(Ps...)>::o;

// Instances of this class are counted, and their lifetime is checked
class Tracker {
public:
  Tracker() : m_self(this), m_state(LIVE) {
    TT.created++;
    TT.alive++;
  }
  Tracker(const Tracker &o) : m_self(this), m_state(o.m_state) {
    o.check();
    TT.created++;
    TT.copies++;
    TT.alive++;
  }
  Tracker(Tracker &&o) noexcept : m_self(this), m_state(o.m_state) {
    o.check();
    o.m_state = MOVED;
    TT.created++;
    TT.moves++;
    TT.alive++;
  }
  Tracker &operator=(const Tracker &) = delete;
  ~Tracker() {
    if (m_self != this || m_state == DEAD)
      TT.errors++;
    m_state = DEAD;
    TT.destroyed++;
    TT.alive--;
  }
  void check() const {
    if (m_self != this || m_state != LIVE)
      TT.errors++;
  }

private:
  enum { LIVE = 0x51, MOVED = 0x77, DEAD = 0xdd };
  const Tracker *m_self;
  volatile int m_state;
};

// Callable objects made at run time
template<bool Copyable>
struct Copy_tag {};
template<>
struct Copy_tag<false> {
  Copy_tag() {}
  Copy_tag(const Copy_tag &) = delete;
  Copy_tag(Copy_tag &&) {}
};
struct Dyn_base {
  Tracker t;
  int id;
  std::unique_ptr<int> owned; // so that a missed or doubled destruction is seen by ASan
  explicit Dyn_base(int i) : id(i), owned(new int(i)) {}
  Dyn_base(const Dyn_base &o) : t(o.t), id(o.id), owned(copy(o)) {}
  Dyn_base(Dyn_base &&o) noexcept : t(std::move(o.t)), id(o.id), owned(std::move(o.owned)) { o.id = -2; }
  static int *copy(const Dyn_base &o) {
    Pause p;
    return o.owned ? new int(*o.owned) : nullptr;
  }
  int check() const {
    t.check();
    if (!owned || *owned != id) {
      TT.errors++;
      return -3;
    }
    return id;
  }
  void spoil() { // the original is modified after having been given away
    id = -1;
    if (owned)
      *owned = -1;
  }
};
template<bool Copyable, std::size_t Pad, class Sig>
struct Dyn;
template<bool Copyable, std::size_t Pad, class R, class... Ps>
struct Dyn<Copyable, Pad, R(Ps...)> : Dyn_base, Copy_tag<Copyable> {
  unsigned char pad[Pad];
  explicit Dyn(int i) : Dyn_base(i) { std::memset(pad, 0x3c, Pad); }
  R operator()(Ps... ps) const {
    for (std::size_t k = 0; k < Pad; k++)
      if (pad[k] != 0x3c)
        TT.errors++;
    return Body<R>::go(this->check(), nullptr, ps...);
  }
};
template<class Sig>
struct Stateful;
template<class R, class... Ps>
struct Stateful<R(Ps...)> : Dyn_base {
  long count;
  explicit Stateful(int i) : Dyn_base(i), count(0) {}
  R operator()(Ps... ps) {
    ++count;
    return Body<R>::go(this->check(), &count, ps...);
  }
};

// ---------------------------------------------------------------- actions

typedef List<Io<IN_LAMBDA, OUT_LAMBDA>, Io<IN_FUNCTOR_RVALUE, OUT_FUNCTOR_RVALUE>, Io<IN_FUNCTION, OUT_FUNCTION>,
             Io<IN_INPUT_ITERATOR, OUT_OUTPUT_ITERATOR>, Io<IN_POINTER, OUT_POINTER>, Io<IN_CONST_POINTER, OUT_BACK_INSERTER>,
             Io<IN_VECTOR, OUT_VECTOR>, Io<IN_LIST, OUT_LIST>, Io<IN_FORWARD, OUT_LAMBDA>, Io<IN_LAMBDA, OUT_POINTER>,
             Io<IN_POINTER, OUT_FUNCTOR_RVALUE>, Io<IN_FUNCTION, OUT_BACK_INSERTER>, Io<IN_INPUT_ITERATOR, OUT_LAMBDA>,
             Io<IN_LAMBDA, OUT_LIST>, Io<IN_LIST, OUT_FUNCTION>, Io<IN_FUNCTOR_RVALUE, OUT_OUTPUT_ITERATOR>,
             Io<IN_CONST_POINTER, OUT_LAMBDA>, Io<IN_VECTOR, OUT_POINTER>, Io<IN_STATEFUL, OUT_STATEFUL>, Io<IN_CONST, OUT_CONST>,
             Io<IN_STATEFUL, OUT_POINTER>, Io<IN_POINTER, OUT_STATEFUL>, Io<IN_ARRAY, OUT_ARRAY>, Io<IN_STRING, OUT_STRING>,
             Io<IN_ARRAY, OUT_LAMBDA>, Io<IN_LAMBDA, OUT_ARRAY>>
    Io_rich;
typedef List<Io<IN_LAMBDA, OUT_LAMBDA>, Io<IN_POINTER, OUT_POINTER>, Io<IN_INPUT_ITERATOR, OUT_FUNCTOR_RVALUE>,
             Io<IN_STATEFUL, OUT_STATEFUL>>
    Io_lean;
typedef Ints<IN_LAMBDA, IN_FUNCTOR_RVALUE, IN_FUNCTION, IN_STATEFUL, IN_CONST, IN_INPUT_ITERATOR, IN_POINTER, IN_CONST_POINTER, IN_VECTOR, IN_LIST,
             IN_FORWARD, IN_STRING, IN_ARRAY>
    In_rich;
typedef Ints<IN_LAMBDA, IN_POINTER> In_lean;
typedef Ints<OUT_LAMBDA, OUT_FUNCTOR_RVALUE, OUT_FUNCTION, OUT_STATEFUL, OUT_CONST, OUT_BACK_INSERTER, OUT_OUTPUT_ITERATOR, OUT_POINTER, OUT_VECTOR,
             OUT_LIST, OUT_STRING, OUT_ARRAY>
    Out_rich;
typedef Ints<OUT_LAMBDA, OUT_POINTER> Out_lean;

template<class A>
struct Run_op {
  A &a;
  template<class In, class Out>
  void operator()(In &&in, Out &&out) {
    a(std::forward<In>(in), std::forward<Out>(out));
  }
};
template<class A>
struct Run_in_op {
  A &a;
  template<class In>
  void operator()(In &&in) {
    a(std::forward<In>(in));
  }
};
template<class A>
void run_in(A &a, Source &src, int in, std::true_type) {
  Run_in_op<A> op = {a};
  with_in<void>(In_rich{}, in, src, op);
}
template<class A>
void run_in(A &, Source &, int, std::false_type) {}

template<class A>
std::unique_ptr<A> copy_of(const A &a, std::true_type) {
  return std::unique_ptr<A>(build<A>(a));
}
template<class A>
std::unique_ptr<A> copy_of(const A &, std::false_type) {
  return nullptr;
}

struct Action_shape {
  Installed what;
  bool empty;
  Leaves params, ret;
};
template<class A>
struct Action_box : IAction {
  std::unique_ptr<A> a;
  Action_shape shape;
  typedef std::is_same<A, upd::action> dynamic;
  Action_box(A *p, const Action_shape &s) : a(p), shape(s) {}
  bool is_static() const override { return !dynamic::value; }
  bool empty() const override { return shape.empty; }
  size_t input_size() const override { return static_cast<const A &>(*a).input_size(); }
  size_t output_size() const override { return static_cast<const A &>(*a).output_size(); }
  Installed what() const override { return shape.what; }
  Leaves params() const override { return shape.params; }
  Leaves ret() const override { return shape.ret; }
  const std::vector<Io_pair> &io() const override { return io_pairs(Io_rich{}); }
  void run(Source &src, Sink &dst, int io) override {
    if (io % 2) {
      Run_op<const A> op = {*a};
      with_io<void>(Io_rich{}, static_cast<size_t>(io), src, dst, op);
    } else {
      Run_op<A> op = {*a};
      with_io<void>(Io_rich{}, static_cast<size_t>(io), src, dst, op);
    }
  }
  bool has_no_output_form() const override { return dynamic::value; }
  void run_no_output(Source &src, int in) override { run_in(*a, src, in, dynamic{}); }
  std::unique_ptr<IAction> move() override {
    std::unique_ptr<IAction> r(new Action_box(build<A>(std::move(*a)), shape));
    shape.empty = dynamic::value;
    return r;
  }
  std::unique_ptr<IAction> copy() override {
    std::unique_ptr<A> p = copy_of(*a, std::is_copy_constructible<A>{});
    return std::unique_ptr<IAction>(p ? new Action_box(p.release(), shape) : nullptr);
  }
  bool move_assign(IAction &from) override {
    Action_box *o = dynamic_cast<Action_box *>(&from);
    if (!o)
      return false;
    {
      Lib l;
      *a = std::move(*o->a);
    }
    if (o != this) {
      shape = o->shape;
      o->shape.empty = dynamic::value;
    }
    return true;
  }
};

// upd::action out of a callable
template<upd::endianess E, upd::signed_mode S, class F>
upd::action *new_action(F &&f) {
  return build<upd::action>(std::forward<F>(f), upd::endianess_h<E>{}, upd::signed_mode_h<S>{});
}
template<class R, class... Ps>
struct Lambda_maker;
template<class Sig>
struct With_lambda;
template<class R, class... Ps>
struct With_lambda<R(Ps...)> {
  template<class Op>
  static void go(int id, Op op) {
    op([id](Ps... ps) -> R { return Body<R>::go(id, nullptr, ps...); });
  }
};

template<class F, upd::endianess E, upd::signed_mode S>
struct New_action_op {
  upd::action *&out;
  template<class L>
  void operator()(L &&l) {
    out = new_action<E, S>(std::forward<L>(l));
  }
};

template<class L>
struct Leaves_of_list;
template<class... Ts>
struct Leaves_of_list<List<Ts...>> {
  static Leaves get() {
    Leaves l;
    int dummy[] = {0, (Codec<Ts>::leaves(l), 0)...};
    (void)dummy;
    return l;
  }
  static std::string name() {
    std::string s;
    int dummy[] = {0, (s += (s.empty() ? "" : ",") + Codec<Ts>::name(), 0)...};
    (void)dummy;
    return s;
  }
};

// Actions of a signature
template<class F, upd::endianess E, upd::signed_mode S>
std::unique_ptr<IAction> make_action(int kind, int id) {
  typedef typename F::sig sig;
  typedef Alt<ALT_ID + 10 * F::id, sig> alt;
  Action_shape shape = {{id, false, false}, false, Leaves_of_list<typename F::params>::get(), leaves_of<typename F::bare_ret>()};
  upd::action *a = nullptr;
  upd::no_storage_action *n = nullptr;
  switch (kind) {
  case A_FUNCTION:
    shape.what.id = ALT_ID + 10 * F::id;
    a = new_action<E, S>(alt::f);
    break;
  case A_STATIC_FUNCTION:
    shape.what.id = ALT_ID + 10 * F::id;
    n = build<upd::no_storage_action>(UPD_CTREF(alt::f), upd::endianess_h<E>{}, upd::signed_mode_h<S>{});
    break;
  case A_STATIC_FUNCTOR:
    shape.what.id = ALT_ID + 10 * F::id + 5;
    n = build<upd::no_storage_action>(UPD_CTREF(alt::o), upd::endianess_h<E>{}, upd::signed_mode_h<S>{});
    break;
  case A_RVALUE:
    shape.what.tracked = true;
    a = new_action<E, S>(Dyn<true, 1, sig>(id));
    break;
  case A_LVALUE: {
    shape.what.tracked = true;
    Dyn<true, 1, sig> d(id);
    a = new_action<E, S>(d);
    d.spoil();
    break;
  }
  case A_CONST_LVALUE: {
    shape.what.tracked = true;
    const Dyn<true, 1, sig> d(id);
    a = new_action<E, S>(d);
    break;
  }
  case A_MOVE_ONLY:
    shape.what.tracked = true;
    a = new_action<E, S>(Dyn<false, 1, sig>(id));
    break;
  case A_LAMBDA: {
    New_action_op<F, E, S> op = {a};
    With_lambda<sig>::go(id, op);
    break;
  }
  case A_POINTER: {
    sig *p = alt::f;
    shape.what.id = ALT_ID + 10 * F::id;
    a = new_action<E, S>(p);
    p = nullptr;
    break;
  }
  case A_STATEFUL:
    shape.what.tracked = shape.what.stateful = true;
    a = new_action<E, S>(Stateful<sig>(id));
    break;
  case A_STATEFUL_LVALUE: {
    shape.what.tracked = shape.what.stateful = true;
    Stateful<sig> d(id);
    a = new_action<E, S>(d);
    d.count = 1000000;
    d.spoil();
    break;
  }
  case A_BIG:
    shape.what.tracked = true;
    a = new_action<E, S>(Dyn<true, 200, sig>(id));
    break;
  default:
    shape.empty = true;
    a = build<upd::action>();
  }
  if (n)
    return std::unique_ptr<IAction>(new Action_box<upd::no_storage_action>(n, shape));
  return std::unique_ptr<IAction>(new Action_box<upd::action>(a, shape));
}

// ---------------------------------------------------------------- hooks

template<class R>
struct Hook_sig {
  typedef void type(R);
  typedef int int_type(const R &);
  typedef List<R> params;
};
template<>
struct Hook_sig<void> {
  typedef void type();
  typedef int int_type();
  typedef List<> params;
};
template<class Key>
struct New_hook_op {
  Key &key;
  upd::action *&out;
  template<class L>
  void operator()(L &&l) {
    void *m = ::operator new(sizeof(upd::action));
    Lib g;
    out = ::new (m) upd::action(key.with_hook(std::forward<L>(l)));
  }
};
template<class F, class Key>
std::unique_ptr<IAction> make_hook(Key key, int kind, int id) {
  typedef typename F::bare_ret R;
  typedef typename Hook_sig<R>::type sig;
  typedef Alt<HOOK_ID + F::id, sig> alt;
  Action_shape shape = {{id, false, false}, false, Leaves_of_list<typename Hook_sig<R>::params>::get(), Leaves()};
  upd::action *a = nullptr;
  upd::no_storage_action *n = nullptr;
  const Key const_key = key;
  New_hook_op<const Key> op = {const_key, a};
  switch (kind) {
  case H_RVALUE:
    shape.what.tracked = true;
    op(Dyn<true, 1, sig>(id));
    break;
  case H_LVALUE: {
    shape.what.tracked = true;
    Dyn<true, 1, sig> d(id);
    op(d);
    d.spoil();
    break;
  }
  case H_STATIC_FUNCTION: {
    shape.what.id = HOOK_ID + F::id;
    void *m = ::operator new(sizeof(upd::no_storage_action));
    Lib g;
    n = ::new (m) upd::no_storage_action(key.with_hook(UPD_CTREF(alt::f)));
    break;
  }
  case H_CPP17_FUNCTION: {
    shape.what.id = HOOK_ID + F::id;
    void *m = ::operator new(sizeof(upd::no_storage_action));
    Lib g;
#if __cplusplus >= 201703L
    n = ::new (m) upd::no_storage_action(key.template with_hook<alt::f>());
#else
    n = ::new (m) upd::no_storage_action(key.with_hook(UPD_CTREF(alt::f)));
#endif
    break;
  }
  case H_RETURNING: {
    shape.what.tracked = true;
    Leaf l = {'s', sizeof(int)};
    shape.ret.push_back(l);
    op(Dyn<true, 1, typename Hook_sig<R>::int_type>(id));
    break;
  }
  case H_MOVE_ONLY:
    shape.what.tracked = true;
    op(Dyn<false, 1, sig>(id));
    break;
  case H_STATEFUL: {
    shape.what.tracked = shape.what.stateful = true;
    Stateful<sig> d(id);
    op(d);
    d.count = 1000000;
    d.spoil();
    break;
  }
  case H_FUNCTION:
    shape.what.id = HOOK_ID + F::id;
    op(alt::f);
    break;
  default: {
    With_lambda<sig>::go(id, op);
  }
  }
  if (n)
    return std::unique_ptr<IAction>(new Action_box<upd::no_storage_action>(n, shape));
  return std::unique_ptr<IAction>(new Action_box<upd::action>(a, shape));
}

// ---------------------------------------------------------------- keys

template<class M>
struct Write_op {
  M &m;
  bool shift;
  template<class Out>
  void operator()(Out &&out) {
    if (shift)
      m >> std::forward<Out>(out);
    else
      m.write_to(std::forward<Out>(out));
  }
};
template<class Key, class... Ts>
struct Call_write_op {
  Key &key;
  Holders<Ts...> &h;
  bool shift;
  template<class Out>
  void operator()(Out &&out) {
    go(std::forward<Out>(out), typename Make_iseq<sizeof...(Ts)>::type{});
  }
  template<class Out, std::size_t... Is>
  void go(Out &&out, Iseq<Is...>) {
    if (shift)
      key(cell<Is>(h)...) >> std::forward<Out>(out);
    else
      key(cell<Is>(h)...).write_to(std::forward<Out>(out));
  }
};
template<class Key, class R>
struct Read_op {
  Key &key;
  bool shift;
  template<class In>
  Vals operator()(In &&in) {
    Holder<R> h = {shift ? key << std::forward<In>(in) : key.read_from(std::forward<In>(in))};
    Pause p;
    Vals v;
    Codec<R>::flatten(h.v, v);
    return v;
  }
};
template<class Key>
struct Read_op<Key, void> {
  Key &key;
  bool shift;
  template<class In>
  Vals operator()(In &&in) {
    if (shift)
      key << std::forward<In>(in);
    else
      key.read_from(std::forward<In>(in));
    Pause p;
    return Vals();
  }
};

template<class F, class Key>
void encode_it(const Key &k, const Vals &args, Sink &out, int how);

template<class Desc, std::size_t Pos, class F, class Params>
struct Function_box;
template<class Desc, std::size_t Pos, class F, class... Ts>
struct Function_box<Desc, Pos, F, List<Ts...>> : IFunction {
  typedef typename Desc::type keyring_t;
  typedef decltype(std::declval<const keyring_t &>().get(typename F::href{})) key_t;
  typedef typename F::bare_ret R;
  typedef typename std::conditional<Desc::rich, In_rich, In_lean>::type ins;
  typedef typename std::conditional<Desc::rich, Out_rich, Out_lean>::type outs;
  typedef typename Make_iseq<sizeof...(Ts)>::type seq;

  int id() const override { return F::id; }
  Leaves params() const override { return Leaves_of_list<List<Ts...>>::get(); }
  Leaves ret() const override { return leaves_of<R>(); }
  std::string name() const override {
    return "f" + std::to_string(static_cast<int>(F::id)) + ": " + Codec<R>::name() + "(" +
           Leaves_of_list<List<Ts...>>::name() + ")";
  }
  Vals direct(const Vals &args) const override { return F::direct(args); }
  size_t position() const override { return Pos; }
  uint64_t key_index() const override {
    uint64_t i = key_t::index;
    return i;
  }
  size_t index_size() const override { return sizeof(typename key_t::index_t); }
  size_t payload_length() const override {
    size_t n = key_t::payload_length;
    return n;
  }
  static key_t key(int how) {
    switch (how % 3) {
    case 0:
      return keyring_t{}.get(typename F::href{});
    case 1:
      return key_t{};
    default:
#if __cplusplus >= 201703L
      return keyring_t{}.template get<F::f>();
#else
      const keyring_t k = Desc::make(0);
      return k.get(UPD_CTREF(F::f));
#endif
    }
  }
  bool key_consistent() const override {
    typedef upd::tuple<Desc::e, Desc::s, Ts...> tuple_t;
    return std::is_same<typename key_t::index_t, typename keyring_t::index_t>::value &&
           std::is_same<typename key_t::signature_t, typename F::sig>::value && std::is_same<typename key_t::return_t, R>::value &&
           std::is_same<typename key_t::tuple_t, tuple_t>::value && key_t::endianess == Desc::e && key_t::signed_mode == Desc::s;
  }
  std::vector<int> encode_notations() const override { return notations(outs{}, Desc::rich ? 4 : 2); }
  void encode(const Vals &args, Sink &out, int how) const override {
    Holders<Ts...> h(args);
    int o = how % SHIFT;
    bool shift = how / SHIFT % 2;
    if (how / SHIFT < 2) {
      const key_t k = key(how);
      Call_write_op<const key_t, Ts...> op = {k, h, shift};
      with_out<void>(outs{}, o, out, op);
    } else
      encode_const(h, out, o, shift, key(how), seq{});
  }
  template<std::size_t... Is>
  static void encode_const(Holders<Ts...> &h, Sink &out, int o, bool shift, const key_t &k, Iseq<Is...>) {
    (void)h;
    typedef decltype(k(cell<Is>(h)...)) M;
    Lib l;
    const M &m = k(cell<Is>(h)...);
    Pause p;
    Write_op<const M> op = {m, shift};
    with_out<void>(outs{}, o, out, op);
  }
  void encode_twice(const Vals &args, Sink &a, Sink &b) const override { twice(args, a, b, seq{}); }
  template<std::size_t... Is>
  static void twice(const Vals &args, Sink &a, Sink &b, Iseq<Is...>) {
    Holders<Ts...> h(args);
    (void)h;
    Lib l;
    auto m = key(0)(cell<Is>(h)...);
    Pause p;
    Write_op<decltype(m)> op = {m, false};
    with_out<void>(outs{}, OUT_LAMBDA, a, op);
    with_out<void>(outs{}, OUT_POINTER, b, op);
  }
  void encode_tuple(const Vals &args, Sink &out) const override { through_tuple(args, out, seq{}); }
  struct Emit {
    const key_t &k;
    Sink &out;
  };
  template<std::size_t... Is>
  static void through_tuple(const Vals &args, Sink &out, Iseq<Is...>) {
    Holders<Ts...> h(args);
    (void)h;
    Lib l;
    typename key_t::tuple_t t = upd::make_tuple<Ts...>(upd::endianess_h<Desc::e>{}, upd::signed_mode_h<Desc::s>{});
    int dummy[] = {0, (t.template set<Is>(cell<Is>(h)), 0)...};
    (void)dummy;
    const key_t k = key(0);
    Sink *s = &out;
    invoke_key(t, k, [s](unsigned char b) { s->put(b); }, std::integral_constant<bool, no_arrays()>{}, h, seq{});
  }
  static constexpr bool no_arrays() { return No_arrays<Ts...>::value; }
  template<class... Us>
  struct No_arrays : std::true_type {};
  template<class U, class... Us>
  struct No_arrays<U, Us...> : std::integral_constant<bool, !std::is_array<U>::value && No_arrays<Us...>::value> {};
  template<class Tup, class Out, std::size_t... Is>
  static void invoke_key(const Tup &t, const key_t &k, Out out, std::true_type, Holders<Ts...> &, Iseq<Is...>) {
    k(upd::get<Is>(t)...).write_to(out);
  }
  template<class Tup, class Out, std::size_t... Is>
  static void invoke_key(const Tup &, const key_t &k, Out out, std::false_type, Holders<Ts...> &h, Iseq<Is...>) {
    k(cell<Is>(h)...).write_to(out);
  }
  std::vector<int> decode_notations() const override { return notations(ins{}, 4); }
  Vals decode(Source &src, int how) const override {
    int in = how % SHIFT;
    if (how / SHIFT / 2) {
      key_t k = key(how);
      Read_op<key_t, R> op = {k, how / SHIFT % 2 != 0};
      return with_in<Vals>(ins{}, in, src, op);
    }
    const key_t k = key(how);
    Read_op<const key_t, R> op = {k, how / SHIFT % 2 != 0};
    return with_in<Vals>(ins{}, in, src, op);
  }
  std::unique_ptr<IAction> hook(int kind, int id) const override { return make_hook<F>(key(kind), kind, id); }
  std::unique_ptr<IAction> action(int kind, int id) const override { return make_action<F, Desc::e, Desc::s>(kind, id); }
};

// ---------------------------------------------------------------- user-defined buffered dispatchers

struct Unrelated_base {
  virtual ~Unrelated_base() {}
  unsigned long magic[3] = {0x1122334455667788ul, 0x99aabbccddeeff00ul, 0x123456789abcdef0ul};
};
struct Heap_block {
  std::unique_ptr<unsigned char[]> p;
  size_t n;
  explicit Heap_block(size_t size) : n(size) {
    Pause g;
    p.reset(new unsigned char[size]);
    for (size_t i = 0; i < n; i++)
      p[i] = 0xcd;
  }
  Heap_block(const Heap_block &o) : n(o.n) {
    Pause g;
    p.reset(new unsigned char[n]);
    for (size_t i = 0; i < n; i++)
      p[i] = o.p[i];
  }
  Heap_block(Heap_block &&o) noexcept : p(std::move(o.p)), n(o.n) {}
  Heap_block &operator=(const Heap_block &o) {
    Heap_block c(o);
    p.swap(c.p);
    return *this;
  }
  Heap_block &operator=(Heap_block &&o) noexcept {
    p.swap(o.p);
    return *this;
  }
};
// Buffers have exactly the advertised sizes (0xcd filled); they come after another base class
template<class Disp, bool Double, size_t In, size_t Out>
class Custom : public Unrelated_base, public upd::buffered_dispatcher<Custom<Disp, Double, In, Out>, Disp> {
  typedef upd::buffered_dispatcher<Custom<Disp, Double, In, Out>, Disp> base_t;

public:
  template<class K, upd::action_features A>
  explicit Custom(K k, upd::action_features_h<A> a) : base_t(k, a), m_in(Double || In > Out ? In : Out), m_out(Double ? Out : 0) {}
  Custom() : m_in(Double || In > Out ? In : Out), m_out(Double ? Out : 0) {}
  unsigned char *ibuf_begin() { return m_in.p.get(); }
  unsigned char *obuf_begin() { return Double ? m_out.p.get() : m_in.p.get(); }

private:
  Heap_block m_in, m_out;
};

// ---------------------------------------------------------------- dispatchers

template<int Kind, int Policy>
struct Disp {};

template<class Desc, int Kind, int Policy>
struct Dispatcher_type {
  static constexpr upd::action_features features =
      Policy == P_ANY ? upd::action_features::ANY : upd::action_features::WEAK_REFERENCE;
  typedef upd::action_features_h<features> policy_t;
  typedef upd::dispatcher<typename Desc::type, features> plain;
  typedef upd::single_buffered_dispatcher<plain> single;
  typedef upd::double_buffered_dispatcher<plain> dbl;
  typedef typename std::conditional<
      Kind == D_PLAIN, plain,
      typename std::conditional<
          Kind == D_SINGLE, single,
          typename std::conditional<Kind == D_DOUBLE, dbl,
                                    Custom<plain, Kind == D_CUSTOM_DOUBLE, Desc::max_request, Desc::max_response>>::type>::type>::
      type type;
};

template<int Kind>
struct Factory { // custom
  template<class D, class K, class P>
  static D *make(K k, P p, int how) {
    return how % 2 ? build<D>() : build<D>(k, p);
  }
};
template<>
struct Factory<D_PLAIN> {
  template<class D, class K, class P>
  static D *make(K k, P p, int how) {
    if (how % 4 == 0)
      return build<D>(k, p);
    if (how % 4 == 1)
      return build<D>();
    void *m = ::operator new(sizeof(D));
    Lib l;
#if __cplusplus >= 201703L
    if (how % 4 == 2) {
      upd::dispatcher d{k, p};
      return ::new (m) D(std::move(d));
    }
#endif
    return ::new (m) D(upd::make_dispatcher(k, p));
  }
};
template<>
struct Factory<D_SINGLE> {
  template<class D, class K, class P>
  static D *make(K k, P p, int how) {
    if (how % 4 == 0)
      return build<D>(k, p);
    if (how % 4 == 1)
      return build<D>();
    void *m = ::operator new(sizeof(D));
    Lib l;
#if __cplusplus >= 201703L
    if (how % 4 == 2) {
      upd::single_buffered_dispatcher d{k, p};
      return ::new (m) D(std::move(d));
    }
#endif
    return ::new (m) D(upd::make_single_buffered_dispatcher(k, p));
  }
};
template<>
struct Factory<D_DOUBLE> {
  template<class D, class K, class P>
  static D *make(K k, P p, int how) {
    if (how % 4 == 0)
      return build<D>(k, p);
    if (how % 4 == 1)
      return build<D>();
    void *m = ::operator new(sizeof(D));
    Lib l;
#if __cplusplus >= 201703L
    if (how % 4 == 2) {
      upd::double_buffered_dispatcher d{k, p};
      return ::new (m) D(std::move(d));
    }
#endif
    return ::new (m) D(upd::make_double_buffered_dispatcher(k, p));
  }
};

template<class D>
struct Put_ops {
  D &d;
  bool shift;
  template<class In>
  upd::packet_status operator()(In &&in) {
    return shift ? d << std::forward<In>(in) : d.read_from(std::forward<In>(in));
  }
};
template<class D, class R>
struct Process_op {
  D &d;
  template<class In, class Out>
  R operator()(In &&in, Out &&out) {
    return d(std::forward<In>(in), std::forward<Out>(out));
  }
};

inline uint64_t result_of(upd::packet_status s) {
  return s == upd::packet_status::LOADING_PACKET   ? ST_LOADING
         : s == upd::packet_status::DROPPED_PACKET ? ST_DROPPED
                                                   : ST_RESOLVED;
}
inline uint64_t result_of(unsigned char i) { return i; }
inline uint64_t result_of(unsigned short i) { return i; }
inline uint64_t result_of(unsigned int i) { return i; }
inline uint64_t result_of(unsigned long i) { return i; }

template<class D, class Lv>
struct Replace_op {
  D &d;
  template<class L>
  void operator()(L &&l) {
    Lib g;
    d.template replace<Lv::value>(std::forward<L>(l));
  }
};

// replace() for the function F at position Pos
template<class D, std::size_t Pos, class F, int Policy>
struct Replacer {
  typedef typename F::sig sig;
  typedef Alt<ALT_ID + 10 * F::id, sig> alt0;
  typedef Alt<ALT_ID + 10 * F::id + 1, sig> alt1;
  typedef std::integral_constant<std::size_t, Pos> pos;
  static Installed by_static(D &d, int how) {
    Installed r = {ALT_ID + 10 * F::id, false, false};
    Lib l;
    switch (how) {
    case R_FUNCTION_0:
      d.template replace<Pos>(UPD_CTREF(alt0::f));
      break;
    case R_FUNCTION_1:
      r.id += 1;
      d.template replace<Pos>(UPD_CTREF(alt1::f));
      break;
    case R_FUNCTOR:
      r.id += 5;
      d.template replace<Pos>(UPD_CTREF(alt0::o));
      break;
    case R_CPP17_FUNCTION:
#if __cplusplus >= 201703L
      d.template replace<Pos, alt0::f>();
#else
      d.template replace<Pos>(upd::unevaluated<sig *, &alt0::f>{});
#endif
      break;
    case R_CPP17_FUNCTOR:
      r.id += 6;
#if __cplusplus >= 201703L
      d.template replace<Pos, alt1::o>();
#else
      d.template replace<Pos>(UPD_CTREF(alt1::o));
#endif
      break;
    default:
      r.id = F::id;
      d.template replace<Pos>(typename F::href{});
    }
    return r;
  }
  static Installed go(D &d, int how, int, std::false_type) { return by_static(d, how); }
  static Installed go(D &d, int how, int id, std::true_type) {
    Installed r = {id, false, true};
    Replace_op<D, pos> op = {d};
    switch (how) {
    case R_RVALUE:
      op(Dyn<true, 1, sig>(id));
      break;
    case R_LVALUE: {
      Dyn<true, 1, sig> x(id);
      op(x);
      x.spoil();
      break;
    }
    case R_CONST_LVALUE: {
      const Dyn<true, 1, sig> x(id);
      op(x);
      break;
    }
    case R_MOVE_ONLY:
      op(Dyn<false, 1, sig>(id));
      break;
    case R_LAMBDA:
      r.tracked = false;
      With_lambda<sig>::go(id, op);
      break;
    case R_STATEFUL:
      r.stateful = true;
      op(Stateful<sig>(id));
      break;
    case R_STATEFUL_LVALUE: {
      r.stateful = true;
      Stateful<sig> x(id);
      op(x);
      x.count = 1000000;
      x.spoil();
      break;
    }
    case R_PLAIN_FUNCTION:
      r.tracked = false;
      r.id = ALT_ID + 10 * F::id + 1;
      op(alt1::f);
      break;
    case R_POINTER: {
      r.tracked = false;
      r.id = ALT_ID + 10 * F::id;
      sig *p = alt0::f;
      op(p);
      p = nullptr;
      break;
    }
    default:
      return by_static(d, how);
    }
    return r;
  }
  static Installed replace(D &d, int how, int id) { return go(d, how, id, std::integral_constant<bool, Policy == P_ANY>{}); }
};

template<std::size_t Pos, class F>
struct Exposed {};

// Reply with the key of a function of the peer
template<class D, class Key>
struct Reply_op {
  D &d;
  Key key;
  template<class Out>
  bool operator()(Out &&out) {
    return d.reply(std::forward<Out>(out), key);
  }
};
typedef Ints<OUT_LAMBDA, OUT_POINTER, OUT_STATEFUL, OUT_BACK_INSERTER, OUT_FUNCTOR_RVALUE, OUT_OUTPUT_ITERATOR> Out_reply_rich;
template<class D, class Outs, class Peer, class Exp>
struct Replier;
template<class D, class Outs, class Peer, std::size_t... Ps, class... Fs>
struct Replier<D, Outs, Peer, List<Exposed<Ps, Fs>...>> {
  template<class F>
  static bool one(D &d, Sink &dst, int out) {
    typedef decltype(std::declval<const typename Peer::type &>().get(typename F::href{})) key_t;
    Reply_op<D, key_t> op = {d, key_t{}};
    return with_out<bool>(Outs{}, out, dst, op);
  }
  static bool reply(D &d, size_t fn, Sink &dst, int out) {
    typedef bool (*P)(D &, Sink &, int);
    static const P table[] = {one<Fs>...};
    return table[fn](d, dst, out);
  }
};

template<class Desc, int Kind, int Policy, class Exp>
struct Dispatcher_box_base;
template<class Desc, int Kind, int Policy, std::size_t... Ps, class... Fs>
struct Dispatcher_box_base<Desc, Kind, Policy, List<Exposed<Ps, Fs>...>> : IDispatcher {
  typedef typename Dispatcher_type<Desc, Kind, Policy>::type D;
  typedef typename Dispatcher_type<Desc, Kind, Policy>::policy_t policy_t;
  typedef typename std::conditional<Desc::rich, typename Desc::ios, Io_lean>::type ios;
  std::unique_ptr<D> d;
  explicit Dispatcher_box_base(D *x) : d(x) {}
  int kind() const override { return Kind; }
  int policy() const override { return Policy; }
  const std::vector<Io_pair> &io() const override { return io_pairs(ios{}); }
  size_t input_size(size_t i, bool konst) const override {
    typedef typename D::index_t I;
    return konst ? static_cast<const D &>(*d)[static_cast<I>(i)].input_size() : (*d)[static_cast<I>(i)].input_size();
  }
  size_t output_size(size_t i, bool konst) const override {
    typedef typename D::index_t I;
    return konst ? static_cast<const D &>(*d)[static_cast<I>(i)].output_size() : (*d)[static_cast<I>(i)].output_size();
  }
  void run_action(size_t i, Source &src, Sink &dst, int io, bool konst) override {
    typedef typename D::index_t I;
    typedef typename D::action_t A;
    if (konst) {
      Run_op<const A> op = {static_cast<const D &>(*d)[static_cast<I>(i)]};
      with_io<void>(Io_lean{}, static_cast<size_t>(io), src, dst, op);
    } else {
      Run_op<A> op = {(*d)[static_cast<I>(i)]};
      with_io<void>(Io_lean{}, static_cast<size_t>(io), src, dst, op);
    }
  }
  int replace_notations() const override { return Policy == P_ANY ? R_ANY_COUNT : R_STATIC_COUNT; }
  Installed replace(size_t fn, int how, int id) override {
    typedef Installed (*P)(D &, int, int);
    static const P table[] = {Replacer<D, Ps, Fs, Policy>::replace...};
    return table[fn](*d, how, id);
  }
  bool take_action(size_t fn, IAction &a) override {
    typedef typename D::index_t I;
    static const size_t pos[] = {Ps...};
    Action_box<typename D::action_t> *b = dynamic_cast<Action_box<typename D::action_t> *>(&a);
    if (!b)
      return false;
    Lib l;
    (*d)[static_cast<I>(pos[fn])] = std::move(*b->a);
    b->shape.empty = Policy == P_ANY;
    return true;
  }
  size_t object_size() const override { return sizeof(D); }
  uint64_t process(Source &src, Sink &dst, int io) override {
    typedef decltype((*d)(src_function, sink_function)) R;
    Process_op<D, R> op = {*d};
    return result_of(with_io<R>(ios{}, static_cast<size_t>(io), src, dst, op));
  }
};

template<class Desc, int Kind, int Policy>
struct Dispatcher_box : Dispatcher_box_base<Desc, Kind, Policy, typename Desc::exposed> {
  typedef Dispatcher_box_base<Desc, Kind, Policy, typename Desc::exposed> base;
  typedef typename base::D D;
  typedef typename std::conditional<Desc::rich, In_rich, In_lean>::type ins;
  typedef typename std::conditional<Desc::rich, Out_rich, Out_lean>::type outs;
  typedef typename std::conditional<Desc::rich, Out_reply_rich, Out_lean>::type reply_outs;
  using base::d;
  explicit Dispatcher_box(D *x) : base(x) {}
  int put(uint8_t b) override {
    Lib l;
    return static_cast<int>(result_of(d->put(b)));
  }
  uint8_t get() override {
    Lib l;
    return d->get();
  }
  bool is_loaded() const override {
    Lib l;
    return static_cast<const D &>(*d).is_loaded();
  }
  std::vector<int> read_notations() const override { return notations(ins{}, 2); }
  int read_from(Source &src, int how) override {
    Put_ops<D> op = {*d, how / SHIFT % 2 != 0};
    return static_cast<int>(result_of(with_in<upd::packet_status>(ins{}, how % SHIFT, src, op)));
  }
  std::vector<int> write_notations() const override { return notations(outs{}, 2); }
  void write_to(Sink &dst, int how) override {
    Write_op<D> op = {*d, how / SHIFT % 2 != 0};
    with_out<void>(outs{}, how % SHIFT, dst, op);
  }
  uint64_t get_index(Source &) const override { return 0; }
  bool get_action(Source &, bool, Sink &) override { return false; }
  template<class X>
  static std::vector<size_t> sizes(const upd::single_buffered_dispatcher<X> *) {
    size_t n = upd::single_buffered_dispatcher<X>::buffer_size;
    return std::vector<size_t>(1, n);
  }
  template<class X>
  static std::vector<size_t> sizes(const upd::double_buffered_dispatcher<X> *) {
    size_t n = upd::double_buffered_dispatcher<X>::input_buffer_size, m = upd::double_buffered_dispatcher<X>::output_buffer_size;
    std::vector<size_t> v(1, n);
    v.push_back(m);
    return v;
  }
  static std::vector<size_t> sizes(const void *) { return std::vector<size_t>(); }
  std::vector<size_t> buffer_sizes() const override { return sizes(d.get()); }
  std::unique_ptr<IDispatcher> move() override {
    return std::unique_ptr<IDispatcher>(new Dispatcher_box(build<D>(std::move(*d))));
  }
  std::unique_ptr<IDispatcher> copy() override {
    std::unique_ptr<D> p = copy_of(*d, std::integral_constant<bool, Policy == P_WEAK>{});
    return std::unique_ptr<IDispatcher>(p ? new Dispatcher_box(p.release()) : nullptr);
  }
  bool move_assign(IDispatcher &from) override {
    Dispatcher_box *o = dynamic_cast<Dispatcher_box *>(&from);
    if (!o)
      return false;
    Lib l;
    *d = std::move(*o->d);
    return true;
  }
  static void assign(D &a, const D &b, std::true_type) { a = b; }
  static void assign(D &, const D &, std::false_type) {}
  bool copy_assign(IDispatcher &from) override {
    Dispatcher_box *o = dynamic_cast<Dispatcher_box *>(&from);
    if (!o || Policy != P_WEAK)
      return false;
    Lib l;
    assign(*d, *o->d, std::integral_constant<bool, Policy == P_WEAK>{});
    return true;
  }
  std::vector<int> reply_notations() const override { return notations(reply_outs{}, 1); }
  bool reply(size_t fn, Sink &dst, int how) override {
    return Replier<D, reply_outs, typename Desc::peer, typename Desc::peer::exposed>::reply(*d, fn, dst, how);
  }
};

template<class D>
struct Get_index_op {
  D &d;
  template<class In>
  uint64_t operator()(In &&in) {
    return d.get_index(std::forward<In>(in));
  }
};
template<class Desc, int Policy>
struct Dispatcher_box<Desc, D_PLAIN, Policy> : Dispatcher_box_base<Desc, D_PLAIN, Policy, typename Desc::exposed> {
  typedef Dispatcher_box_base<Desc, D_PLAIN, Policy, typename Desc::exposed> base;
  typedef typename base::D D;
  using base::d;
  explicit Dispatcher_box(D *x) : base(x) {}
  int put(uint8_t) override { return 0; }
  uint8_t get() override { return 0; }
  bool is_loaded() const override { return false; }
  std::vector<int> read_notations() const override { return std::vector<int>(1, 0); }
  int read_from(Source &, int) override { return 0; }
  std::vector<int> write_notations() const override { return std::vector<int>(1, 0); }
  void write_to(Sink &, int) override {}
  uint64_t get_index(Source &src) const override {
    Get_index_op<const D> op = {*d};
    return with_in<uint64_t>(Ints<IN_LAMBDA>{}, IN_LAMBDA, src, op);
  }
  bool get_action(Source &src, bool run, Sink &dst) override {
    Source *p = &src;
    Sink *q = &dst;
    auto in = [p]() -> unsigned char { return p->next(); };
    auto out = [q](unsigned char b) { q->put(b); };
    Lib l;
    typename D::action_t *a = d->get_action(in);
    if (a && run)
      (*a)(in, out);
    return a != nullptr;
  }
  std::vector<size_t> buffer_sizes() const override { return std::vector<size_t>(); }
  std::unique_ptr<IDispatcher> move() override {
    return std::unique_ptr<IDispatcher>(new Dispatcher_box(build<D>(std::move(*d))));
  }
  std::unique_ptr<IDispatcher> copy() override {
    std::unique_ptr<D> p = copy_of(*d, std::integral_constant<bool, Policy == P_WEAK>{});
    return std::unique_ptr<IDispatcher>(p ? new Dispatcher_box(p.release()) : nullptr);
  }
  bool move_assign(IDispatcher &from) override {
    Dispatcher_box *o = dynamic_cast<Dispatcher_box *>(&from);
    if (!o)
      return false;
    Lib l;
    *d = std::move(*o->d);
    return true;
  }
  static void assign(D &a, const D &b, std::true_type) { a = b; }
  static void assign(D &, const D &, std::false_type) {}
  bool copy_assign(IDispatcher &from) override {
    Dispatcher_box *o = dynamic_cast<Dispatcher_box *>(&from);
    if (!o || Policy != P_WEAK)
      return false;
    Lib l;
    assign(*d, *o->d, std::integral_constant<bool, Policy == P_WEAK>{});
    return true;
  }
  std::vector<int> reply_notations() const override { return std::vector<int>(); }
  bool reply(size_t, Sink &, int) override { return false; }
};

// ---------------------------------------------------------------- keyrings

template<class F>
Leaves params_leaves() {
  return Leaves_of_list<typename F::params>::get();
}

template<class Desc, class Fns, class Exp, class Disps>
struct Keyring_box_impl;
template<class Desc, class... Fns, std::size_t... Ps, class... Es, int... Ks, int... Pols>
struct Keyring_box_impl<Desc, List<Fns...>, List<Exposed<Ps, Es>...>, List<Disp<Ks, Pols>...>> : IKeyring {
  typedef typename Desc::type K;
  std::vector<int> m_ids, m_disps;
  std::vector<Leaves> m_params, m_rets;
  std::vector<std::unique_ptr<IFunction>> m_fns;
  const IKeyring *m_peer;
  explicit Keyring_box_impl(const IKeyring *peer)
      : m_ids{static_cast<int>(Fns::id)...}, m_disps{(Ks + 10 * Pols)...}, m_params{params_leaves<Fns>()...},
        m_rets{leaves_of<typename Fns::bare_ret>()...}, m_peer(peer) {
    int dummy[] = {0, (m_fns.emplace_back(new Function_box<Desc, Ps, Es, typename Es::params>), 0)...};
    (void)dummy;
  }
  std::string name() const override { return Desc::name(); }
  Fmt fmt() const override { return fmt_of(Desc::e, Desc::s); }
  size_t size() const override { return sizeof...(Fns); }
  uint64_t lib_size() const override {
    uint64_t s = K::size;
    return s;
  }
  size_t lib_index_size() const override { return sizeof(typename K::index_t); }
  bool consistent() const override {
    return K::endianess == Desc::e && K::signed_mode == Desc::s && std::is_same<decltype(Desc::make()), K>::value &&
           std::is_unsigned<typename K::index_t>::value;
  }
  const std::vector<int> &ids() const override { return m_ids; }
  const std::vector<Leaves> &params() const override { return m_params; }
  const std::vector<Leaves> &rets() const override { return m_rets; }
  size_t exposed() const override { return m_fns.size(); }
  const IFunction &fn(size_t k) const override { return *m_fns[k]; }
  const std::vector<int> &dispatchers() const override { return m_disps; }
  template<int Kind, int Policy>
  static std::unique_ptr<IDispatcher> make_one(int how) {
    typedef Dispatcher_box<Desc, Kind, Policy> B;
    typedef typename B::D D;
    return std::unique_ptr<IDispatcher>(
        new B(Factory<Kind>::template make<D>(Desc::make(), typename B::policy_t{}, how)));
  }
  std::unique_ptr<IDispatcher> make(int kind, int policy, int how) const override {
    typedef std::unique_ptr<IDispatcher> (*P)(int);
    static const P table[] = {make_one<Ks, Pols>...};
    for (size_t i = 0; i < m_disps.size(); i++)
      if (m_disps[i] == kind + 10 * policy)
        return table[i](how);
    return nullptr;
  }
  const IKeyring *peer() const override { return m_peer; }
};
template<class Desc>
struct Keyring_box : Keyring_box_impl<Desc, typename Desc::fns, typename Desc::exposed, typename Desc::dispatchers> {
  explicit Keyring_box(const IKeyring *peer = nullptr)
      : Keyring_box_impl<Desc, typename Desc::fns, typename Desc::exposed, typename Desc::dispatchers>(peer) {}
};
template<class Desc>
void register_keyring(const IKeyring *peer) {
  keyrings().push_back(new Keyring_box<Desc>(peer));
}
