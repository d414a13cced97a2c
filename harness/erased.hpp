// Type-erased interfaces between the properties (which never include the library) and the adapters (which wrap its
// public API, one instantiation per generated program).
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "model.hpp"

// ---------------------------------------------------------------- globals shared with the functions of the programs

struct Call {
  int id = 0;
  Vals args;
};
struct Boom : std::runtime_error {
  explicit Boom(int i) : std::runtime_error("Boom"), id(i) {}
  int id;
};
struct Harness {
  std::vector<Call> calls; // invocation log
  Fmt fmt;                 // values returned by functions are representable in this format
  uint64_t salt;
  int throw_in;  // the `throw_in`-th next invocation throws (0: none)
  bool quiet;    // do not log
  int unique;    // counter of the replacements
};
// What function `id` returns for given arguments; independent of the library
Vals model_return(int id, const Vals &args, const Leaves &ret);
// Invoked by every function of the programs
Vals on_call(int id, const Vals &args, const Leaves &ret);

// What a functor invoked with the elements of a tuple records
struct Invocation {
  std::vector<Vals> *args;
  unsigned *calls;
};

// Library calls are bracketed by `Lib` so that allocations are attributed to the library
extern "C" {
extern __thread int g_in_lib;
extern __thread unsigned long g_allocs;
}
struct Lib {
  int saved;
  Lib() : saved(g_in_lib) { g_in_lib = 1; }
  ~Lib() { g_in_lib = saved; }
};
struct Pause {
  int saved;
  Pause() : saved(g_in_lib) { g_in_lib = 0; }
  ~Pause() { g_in_lib = saved; }
};

// Instances of stored callables
struct Tracker_stats {
  long alive, copies, moves, created, destroyed, errors;
};

// Everything the functions, streams and objects of an execution need to know. An execution started while another one is
// in progress (in a callback, in a stream, on another thread) has a context of its own.
struct Source;
struct Sink;
struct Context {
  Harness harness;
  Tracker_stats trackers;
  Invocation invocation;
  Source *src;
  Sink *sink;
  long iterator_errors;  // accesses outside of their range by the iterators of the harness
  long nest_in;          // another execution starts at the `nest_in`-th next opportunity (0: never)
  void (*nest)(Context &);
  void *nest_data;
  Context() : harness(), trackers(), invocation(), src(nullptr), sink(nullptr), iterator_errors(0), nest_in(0), nest(nullptr), nest_data(nullptr) {}
};
Context *current_context();
#define HH (current_context()->harness)
#define TT (current_context()->trackers)
#define g_invocation (current_context()->invocation)
#define g_src (current_context()->src)
#define g_sink (current_context()->sink)
#define g_iterator_errors (current_context()->iterator_errors)
// Called by the functions and the streams of the programs; out of the library's accounting
inline void nest_point() {
  Context *c = current_context();
  if (c->nest_in && --c->nest_in == 0)
    c->nest(*c);
}

// ---------------------------------------------------------------- byte streams

struct Src_error {
  int tag;
};
struct Source {
  Bytes data;
  size_t pos;
  long calls;     // requests, including those beyond the end
  long overruns;  // requests beyond the end
  long throw_at;  // the request number `throw_at` (0-based) throws, -1: never
  explicit Source(const Bytes &d = Bytes()) : data(d), pos(0), calls(0), overruns(0), throw_at(-1) {}
  uint8_t next() {
    Pause p;
    if (calls++ == throw_at) {
      calls--;
      throw_at = -1;
      throw Src_error{42};
    }
    nest_point();
    if (pos < data.size())
      return data[pos++];
    overruns++;
    return 0xa5;
  }
};
struct Dest_error {
  int tag;
};
struct Sink {
  Bytes data;
  size_t room;   // for pointers and the like: how many bytes there is room for
  long throw_at; // the byte number `throw_at` (0-based) is refused with an exception, -1: never
  explicit Sink(size_t r = 0) : room(r), throw_at(-1) {}
  void put(uint8_t b) {
    Pause p;
    if (static_cast<long>(data.size()) == throw_at) {
      throw_at = -1;
      throw Dest_error{43};
    }
    nest_point();
    data.push_back(b);
  }
};

// Notations for inputs. The first ones request bytes one by one from the Source, the others copy the remaining bytes of
// the Source into a container of exactly that size.
enum {
  IN_LAMBDA,
  IN_FUNCTOR_RVALUE,
  IN_FUNCTION,
  IN_STATEFUL, // an lvalue with a state of its own
  IN_CONST,    // a constant lvalue
  IN_INPUT_ITERATOR,
  IN_POINTER,
  IN_CONST_POINTER,
  IN_VECTOR,
  IN_LIST,
  IN_FORWARD,
  IN_STRING, // iterator over characters, whose type may be signed
  IN_ARRAY,  // the name of an array
  IN_COUNT
};
inline bool in_counts(int how) { return how % 100 <= IN_INPUT_ITERATOR; } // exact accounting of requests
// Notations for outputs
enum { OUT_LAMBDA, OUT_FUNCTOR_RVALUE, OUT_FUNCTION, OUT_STATEFUL, OUT_CONST, OUT_BACK_INSERTER, OUT_OUTPUT_ITERATOR, OUT_POINTER, OUT_VECTOR, OUT_LIST, OUT_STRING, OUT_ARRAY, OUT_COUNT };
inline bool out_counts(int how) { return how % 100 <= OUT_STATEFUL; } // each byte is given to the Sink at once
// +100: shift operator instead of the named function
enum { SHIFT = 100 };

// ---------------------------------------------------------------- tuples and views

struct Type_info_ {
  Leaves leaves;
  std::string name;
};

// A tuple-like object (tuple or view) bound to some storage
struct IRegion {
  virtual ~IRegion() {}
  virtual std::string kind() const = 0;
  virtual Fmt fmt() const = 0;
  virtual bool writable() const = 0;
  virtual std::vector<Type_info_> types() const = 0; // by the harness, not by the library
  // library's answers
  virtual size_t size() const = 0;       // static size
  virtual size_t distance() const = 0;   // from begin() to end()
  virtual size_t tuple_size() const = 0; // std::tuple_size
  virtual bool consistent() const = 0;   // src() is begin(), static members match, element types are as expected
  virtual int get_notations() const = 0;
  virtual Vals get(size_t i, int how) const = 0;
  virtual int set_notations() const = 0;
  virtual void set(size_t i, const Vals &v, int how) = 0;
  virtual int invoke_notations() const = 0;
  // invoke a functor recording its arguments and returning `result`; false if the result got lost
  virtual bool invoke(int how, std::vector<Vals> &args, unsigned &calls) const = 0;
  // storage
  virtual size_t offset() const = 0; // of the region in the storage
  virtual Bytes dump() const = 0;
  virtual void poke(size_t k, uint8_t b) = 0;
  virtual void poke_through_region(size_t k, uint8_t b) = 0; // k-th byte of the region, through begin()
  virtual uint8_t peek_through_region(size_t k) const = 0;
};

struct ITuple : IRegion {
  virtual std::unique_ptr<ITuple> clone(int how) const = 0; // copy construction / copy assignment
  virtual void assign_same(const ITuple &other) = 0;
  virtual size_t slice_count() const = 0;
  // region borrowed from this tuple; `konst`: through a constant tuple
  virtual std::unique_ptr<IRegion> slice(size_t k, int how, bool konst, size_t &first, size_t &length) = 0;
  virtual uint8_t index(size_t k) const = 0;
  virtual void set_index(size_t k, uint8_t b) = 0;
  virtual size_t object_size() const = 0;
};

// A type list and what is instantiated for it
struct Tuple_factory {
  Fmt fmt;
  std::unique_ptr<ITuple> (*make)();
  int from_notations;
  std::unique_ptr<ITuple> (*make_from)(const std::vector<Vals> &v, int how);
};
struct View_factory {
  Fmt fmt;
  std::string kind;
  int notations;
  std::unique_ptr<IRegion> (*make)(const Bytes &storage, size_t offset, int how);
};
struct Assignment {
  Fmt dst, src;
  std::string kind;
  // dst = src in separate storages
  void (*run)(const Bytes &dst_in, const Bytes &src_in, Bytes &dst_out, Bytes &src_out);
  // in one storage (null when one of them is a tuple)
  void (*overlap)(Bytes &storage, size_t dst_off, size_t src_off);
};
struct Typelist {
  std::string name;
  std::vector<Type_info_> types;
  std::vector<Tuple_factory> tuples;
  std::vector<View_factory> views;
  std::vector<Assignment> assigns;
};

// ---------------------------------------------------------------- RPC

// Combination of an input and an output notation
struct Io_pair {
  int in, out;
};

// What has been installed in an action or in a dispatcher
struct Installed {
  int id;        // of the callable
  bool stateful; // the callable counts its calls and appends that count to its arguments
  bool tracked;  // instances are counted
};

struct IAction {
  virtual ~IAction() {}
  virtual bool is_static() const = 0; // no_storage_action
  virtual bool empty() const = 0;
  virtual size_t input_size() const = 0;
  virtual size_t output_size() const = 0;
  virtual Installed what() const = 0;
  virtual Leaves params() const = 0;
  virtual Leaves ret() const = 0;
  virtual const std::vector<Io_pair> &io() const = 0;
  virtual void run(Source &src, Sink &dst, int io) = 0;
  virtual bool has_no_output_form() const = 0;
  virtual void run_no_output(Source &src, int in) = 0;
  virtual std::unique_ptr<IAction> move() = 0; // move construction, this becomes moved-from
  virtual std::unique_ptr<IAction> copy() = 0; // null when not copyable
  virtual bool move_assign(IAction &from) = 0; // false when not of the same kind
};

enum { // kinds of actions
  A_FUNCTION,        // function
  A_STATIC_FUNCTION, // no_storage_action
  A_RVALUE,          // functor given as rvalue
  A_LVALUE,          // functor given as lvalue, modified then destroyed afterwards
  A_CONST_LVALUE,
  A_MOVE_ONLY,
  A_LAMBDA,
  A_POINTER, // function pointer
  A_STATIC_FUNCTOR,
  A_STATEFUL,
  A_STATEFUL_LVALUE,
  A_BIG,
  A_EMPTY,
  A_COUNT
};

enum { // kinds of replacements
  R_FUNCTION_0,
  R_FUNCTION_1,
  R_FUNCTOR,
  R_ORIGINAL,
  R_CPP17_FUNCTION,
  R_CPP17_FUNCTOR,
  R_STATIC_COUNT,
  R_RVALUE = R_STATIC_COUNT,
  R_LVALUE,
  R_CONST_LVALUE,
  R_MOVE_ONLY,
  R_LAMBDA,
  R_STATEFUL,
  R_STATEFUL_LVALUE,
  R_PLAIN_FUNCTION,
  R_POINTER,
  R_ANY_COUNT
};

enum { // kinds of hooks
  H_LAMBDA,
  H_RVALUE,
  H_LVALUE,
  H_STATIC_FUNCTION,
  H_CPP17_FUNCTION,
  H_RETURNING, // the hook returns an int
  H_FUNCTION,
  H_MOVE_ONLY,
  H_STATEFUL,
  H_COUNT
};

// Ids: functions of the keyrings < 100000; alternatives 100000 + 10 * id + k; hooks HOOK_ID + position; objects given by
// the properties DYNAMIC_ID + n
enum { ALT_ID = 100000, HOOK_ID = 5000000, DYNAMIC_ID = 10000000 };
// These functions and functors are declared `noexcept`
constexpr bool is_nothrow(int id) { return id < DYNAMIC_ID && id % 7 == 3; }

// Key of one function
struct IFunction {
  virtual ~IFunction() {}
  virtual int id() const = 0;
  virtual Leaves params() const = 0;
  virtual Leaves ret() const = 0;
  virtual std::string name() const = 0;
  virtual Vals direct(const Vals &args) const = 0;
  // key
  virtual size_t position() const = 0; // in the keyring, by the generator
  virtual uint64_t key_index() const = 0;
  virtual size_t index_size() const = 0;
  virtual size_t payload_length() const = 0;
  virtual bool key_consistent() const = 0; // static members
  // notations: output + SHIFT + 2 * SHIFT (through a constant message)
  virtual std::vector<int> encode_notations() const = 0;
  virtual void encode(const Vals &args, Sink &out, int how) const = 0;
  virtual void encode_twice(const Vals &args, Sink &a, Sink &b) const = 0;
  virtual void encode_tuple(const Vals &args, Sink &out) const = 0; // tuple_t{args...}.invoke(key)
  // notations: input + SHIFT
  virtual std::vector<int> decode_notations() const = 0;
  virtual Vals decode(Source &src, int how) const = 0;
  virtual std::unique_ptr<IAction> hook(int kind, int id) const = 0;
  virtual std::unique_ptr<IAction> action(int kind, int id) const = 0;
};

enum { D_PLAIN, D_SINGLE, D_DOUBLE, D_CUSTOM_SINGLE, D_CUSTOM_DOUBLE, D_KINDS };
enum { P_ANY, P_WEAK };
enum { ST_LOADING, ST_DROPPED, ST_RESOLVED };

struct IDispatcher {
  virtual ~IDispatcher() {}
  virtual int kind() const = 0;
  virtual int policy() const = 0;
  // buffered
  virtual int put(uint8_t) = 0;
  virtual uint8_t get() = 0;
  virtual bool is_loaded() const = 0;
  virtual std::vector<int> read_notations() const = 0;
  virtual int read_from(Source &src, int how) = 0;
  virtual std::vector<int> write_notations() const = 0;
  virtual void write_to(Sink &dst, int how) = 0;
  // both: status or index
  virtual const std::vector<Io_pair> &io() const = 0;
  virtual uint64_t process(Source &src, Sink &dst, int io) = 0;
  // plain
  virtual uint64_t get_index(Source &src) const = 0;
  // look up the action; false if null; run it when `run`
  virtual bool get_action(Source &src, bool run, Sink &dst) = 0;
  // operator[]
  virtual size_t input_size(size_t i, bool konst) const = 0;
  virtual size_t output_size(size_t i, bool konst) const = 0;
  virtual void run_action(size_t i, Source &src, Sink &dst, int io, bool konst) = 0;
  // replacement: fn is a position among the exposed functions
  virtual int replace_notations() const = 0;
  virtual Installed replace(size_t fn, int how, int id) = 0;
  virtual bool take_action(size_t fn, IAction &a) = 0; // d[i] = move(a); false if not possible
  // sizes: plain {}; single {n}; double {in, out}
  virtual std::vector<size_t> buffer_sizes() const = 0;
  virtual size_t object_size() const = 0;
  virtual std::unique_ptr<IDispatcher> move() = 0;
  virtual std::unique_ptr<IDispatcher> copy() = 0; // null if not copyable
  virtual bool move_assign(IDispatcher &from) = 0;
  virtual bool copy_assign(IDispatcher &from) = 0;
  virtual std::vector<int> reply_notations() const = 0;
  virtual bool reply(size_t peer_fn, Sink &dst, int how) = 0;
};

struct IKeyring {
  virtual ~IKeyring() {}
  virtual std::string name() const = 0;
  virtual Fmt fmt() const = 0;
  virtual size_t size() const = 0; // number of functions, by the generator
  virtual uint64_t lib_size() const = 0;
  virtual size_t lib_index_size() const = 0;
  virtual bool consistent() const = 0;
  // shapes of all functions, by position (by the harness)
  virtual const std::vector<int> &ids() const = 0;
  virtual const std::vector<Leaves> &params() const = 0;
  virtual const std::vector<Leaves> &rets() const = 0;
  // functions whose key is exposed (all of them unless the keyring is large)
  virtual size_t exposed() const = 0;
  virtual const IFunction &fn(size_t k) const = 0;
  // available dispatchers: kind + 10 * policy
  virtual const std::vector<int> &dispatchers() const = 0;
  virtual std::unique_ptr<IDispatcher> make(int kind, int policy, int how) const = 0;
  // peer keyring of byte array functions, for reply(); may be null
  virtual const IKeyring *peer() const = 0;
};

// ---------------------------------------------------------------- registries

std::vector<Typelist *> &typelists();
std::vector<IKeyring *> &keyrings();
