// Properties of keys, actions and dispatchers (C08 to C23) against a model of the RPC protocol
#include "props.hpp"

#include <algorithm>
#include <cstring>
#include <pthread.h>
#include <unistd.h>

// ---------------------------------------------------------------- shared state

static __thread Context *t_context;
// Every thread has a context; nested executions get their own
Context *current_context() {
  static Context first; // of the main thread
  return t_context ? t_context : t_context = &first;
}
extern "C" {
__thread int g_in_lib;
__thread unsigned long g_allocs;
}
int g_alloc_counting __attribute__((weak)) = 0;

std::vector<Typelist *> &typelists() {
  static std::vector<Typelist *> v;
  return v;
}
std::vector<IKeyring *> &keyrings() {
  static std::vector<IKeyring *> v;
  return v;
}
void reset_case() {
  *current_context() = Context();
  g_in_lib = 0;
  g_allocs = 0;
}

Vals model_return(int id, const Vals &args, const Leaves &ret) {
  uint64_t h = mix(HH.salt, static_cast<uint64_t>(id));
  for (size_t i = 0; i < args.size(); i++)
    h = mix(mix(h, static_cast<uint64_t>(args[i])), static_cast<uint64_t>(args[i] >> 64));
  Vals r;
  for (size_t i = 0; i < ret.size(); i++) {
    h = mix(h, i + 1);
    r.push_back(leaf_value(ret[i], HH.fmt, static_cast<unsigned>(h % 97), mix(h, 5)));
  }
  return r;
}
Vals on_call(int id, const Vals &args, const Leaves &ret) {
  if (!HH.quiet) {
    Call c = {id, args};
    HH.calls.push_back(c);
  }
  nest_point();
  if (!is_nothrow(id) && HH.throw_in && --HH.throw_in == 0)
    throw Boom(id);
  return model_return(id, args, ret);
}

static std::string str(const Call &c) { return "f" + std::to_string(c.id) + str(c.args); }
static std::string str(const std::vector<Call> &cs) {
  std::string s;
  for (size_t i = 0; i < cs.size(); i++)
    s += (i ? " " : "") + str(cs[i]);
  return s.empty() ? "nothing" : s;
}
static bool same(const std::vector<Call> &a, const std::vector<Call> &b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].id != b[i].id || a[i].args != b[i].args)
      return false;
  return true;
}
static void expect_calls(Gen &g, const std::vector<Call> &want, const char *when) {
  CHECK(g, same(HH.calls, want), "%s: called %s instead of %s", when, str(HH.calls).c_str(), str(want).c_str());
  for (size_t i = 0; i < HH.calls.size(); i++) {
    g.obs(static_cast<uint64_t>(HH.calls[i].id));
    g.obs(HH.calls[i].args);
  }
  HH.calls.clear();
}
static void sound(Gen &g, const char *when) {
  CHECK(g, TT.errors == 0, "%s: a stored callable was used or destroyed outside of its lifetime, or altered", when);
  CHECK(g, g_iterator_errors == 0, "%s: an iterator was used outside of its range", when);
}
static int pick(Gen &g, const std::vector<int> &v) { return v[g.index(v.size())]; }

// ---------------------------------------------------------------- model of a keyring

struct Shape {
  const IKeyring *k;
  Fmt fmt;
  size_t n, isz;
  explicit Shape(const IKeyring *kr) : k(kr), fmt(kr->fmt()), n(kr->size()), isz(n <= 0xff ? 1 : n <= 0xffff ? 2 : 4) {}
  const Leaves &params(size_t i) const { return k->params()[i]; }
  const Leaves &ret(size_t i) const { return k->rets()[i]; }
  size_t request(size_t i) const { return isz + wire_size(params(i)); }
  size_t response(size_t i) const { return wire_size(ret(i)); }
  size_t max_request() const {
    size_t m = 0;
    for (size_t i = 0; i < n; i++)
      m = std::max(m, request(i));
    return m;
  }
  size_t max_response() const {
    size_t m = 0;
    for (size_t i = 0; i < n; i++)
      m = std::max(m, response(i));
    return m;
  }
  void put_index(uint64_t i, Bytes &out) const {
    Leaf l = {'u', static_cast<uint8_t>(isz)};
    enc(l, static_cast<V>(i), fmt, out);
  }
  uint64_t get_index(const uint8_t *p) const {
    Leaf l = {'u', static_cast<uint8_t>(isz)};
    return static_cast<uint64_t>(dec(l, p, fmt));
  }
  Bytes encode(size_t i, const Vals &args) const {
    Bytes b;
    put_index(i, b);
    Bytes a = enc_all(params(i), args, fmt);
    b.insert(b.end(), a.begin(), a.end());
    return b;
  }
  size_t random_position(Gen &g) const {
    if (n == k->exposed() || g.chance(2, 3))
      return k->fn(g.index(k->exposed())).position();
    return g.index(n);
  }
  uint64_t unknown_index(Gen &g) const {
    uint64_t max = (static_cast<uint64_t>(1) << (8 * isz)) - 1, room = max - n + 1;
    switch (g.below(4)) {
    case 0:
      return n;
    case 1:
      return max;
    case 2:
      return n + std::min<uint64_t>(room - 1, 1);
    default:
      return n + g.below(room);
    }
  }
  // arguments received from the wire: any bytes
  Bytes any_args(Gen &g, size_t i) const {
    if (g.chance(1, 2))
      return enc_all(params(i), g.values(params(i), fmt), fmt);
    return g.bytes(wire_size(params(i)));
  }
};

static const IKeyring *pick_keyring(Gen &g) {
  const IKeyring *k = keyrings()[g.index(keyrings().size())];
  HH.fmt = k->fmt();
  HH.salt = g.raw();
  g.log("keyring %s of %zu functions, %s", k->name().c_str(), k->size(), str(k->fmt()).c_str());
  return k;
}
static const IFunction &pick_fn(Gen &g, const IKeyring *k) {
  const IFunction &f = k->fn(g.index(k->exposed()));
  g.log("function %s at position %zu", f.name().c_str(), f.position());
  return f;
}
static bool has_keyrings() { return !keyrings().empty(); }

// ---------------------------------------------------------------- C01, C02, C06 through RPC

void rpc_encoding(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  Shape s(k);
  const IFunction &f = pick_fn(g, k);
  if (g.chance(1, 2)) {
    Vals args = g.values(f.params(), s.fmt);
    g.log("request for %s", str(args).c_str());
    Sink out(s.request(f.position()));
    f.encode(args, out, pick(g, f.encode_notations()));
    Bytes want = enc_all(f.params(), args, s.fmt);
    CHECK(g, out.data.size() == s.isz + want.size() && std::equal(want.begin(), want.end(), out.data.begin() + static_cast<long>(s.isz)),
          "%s, %s: arguments %s are encoded as %s instead of (index) %s", f.name().c_str(), str(s.fmt).c_str(), str(args).c_str(),
          hex(out.data).c_str(), hex(want).c_str());
    g.obs(out.data);
    g.tag("request");
    if (!args.empty())
      g.nontrivial();
  } else {
    std::unique_ptr<IAction> a = f.action(static_cast<int>(g.below(A_EMPTY)), DYNAMIC_ID);
    Vals args = g.values(f.params(), s.fmt);
    Source src(enc_all(f.params(), args, s.fmt));
    Sink out(wire_size(f.ret()));
    int io = static_cast<int>(g.index(a->io().size()));
    a->run(src, out, io);
    if (a->what().stateful)
      args.push_back(1);
    Vals r = model_return(a->what().id, args, f.ret());
    Bytes want = enc_all(f.ret(), r, s.fmt);
    CHECK(g, out.data == want, "%s, %s: result %s is encoded as %s instead of %s", f.name().c_str(), str(s.fmt).c_str(), str(r).c_str(),
          hex(out.data).c_str(), hex(want).c_str());
    g.obs(out.data);
    g.tag("response");
    if (!r.empty())
      g.nontrivial();
  }
}

void rpc_decoding(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  Shape s(k);
  const IFunction &f = pick_fn(g, k);
  if (g.chance(1, 2)) {
    Bytes b = g.bytes(wire_size(f.ret()));
    g.log("response %s", hex(b).c_str());
    Source src(b);
    int how = pick(g, f.decode_notations());
    Vals v = f.decode(src, how), w = dec_all(f.ret(), b.data(), s.fmt);
    CHECK(g, v == w, "%s, %s: response %s is decoded as %s instead of %s", f.name().c_str(), str(s.fmt).c_str(), hex(b).c_str(),
          str(v).c_str(), str(w).c_str());
    g.obs(v);
    g.tag("response");
    if (!w.empty())
      g.nontrivial();
  } else {
    std::unique_ptr<IAction> a = f.action(static_cast<int>(g.below(A_EMPTY)), DYNAMIC_ID);
    Bytes b = g.bytes(wire_size(f.params()));
    g.log("arguments %s", hex(b).c_str());
    Source src(b);
    Sink out(wire_size(f.ret()));
    a->run(src, out, static_cast<int>(g.index(a->io().size())));
    Call c = {a->what().id, dec_all(f.params(), b.data(), s.fmt)};
    if (a->what().stateful)
      c.args.push_back(1);
    expect_calls(g, std::vector<Call>(1, c), ("arguments " + hex(b) + " of " + f.name()).c_str());
    g.tag("request");
    if (!b.empty())
      g.nontrivial();
  }
}

static void check_sizes(Gen &g, const IKeyring *k, const IFunction &f) {
  Shape s(k);
  size_t p = f.position();
  CHECK(g, k->lib_size() == s.n, "keyring size is %lu instead of %zu", static_cast<unsigned long>(k->lib_size()), s.n);
  CHECK(g, k->lib_index_size() == s.isz, "the index of a keyring of %zu functions takes %zu bytes instead of %zu", s.n,
        k->lib_index_size(), s.isz);
  CHECK(g, k->consistent(), "keyring members are inconsistent");
  CHECK(g, f.key_index() == p, "%s: key index is %lu instead of %zu", f.name().c_str(), static_cast<unsigned long>(f.key_index()), p);
  CHECK(g, f.index_size() == s.isz, "%s: key index takes %zu bytes instead of %zu", f.name().c_str(), f.index_size(), s.isz);
  CHECK(g, f.payload_length() == s.request(p), "%s: payload_length is %zu instead of %zu", f.name().c_str(), f.payload_length(),
        s.request(p));
  CHECK(g, f.key_consistent(), "%s: key members are inconsistent", f.name().c_str());
}

void rpc_roundtrip(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  Shape s(k);
  const IFunction &f = pick_fn(g, k);
  check_sizes(g, k, f);
  std::unique_ptr<IAction> a = f.action(static_cast<int>(g.below(A_EMPTY)), DYNAMIC_ID);
  CHECK(g, a->input_size() == wire_size(f.params()), "%s: action input size is %zu instead of %zu", f.name().c_str(), a->input_size(),
        wire_size(f.params()));
  CHECK(g, a->output_size() == wire_size(f.ret()), "%s: action output size is %zu instead of %zu", f.name().c_str(), a->output_size(),
        wire_size(f.ret()));
  Vals args = g.values(f.params(), s.fmt);
  Sink req(s.request(f.position()));
  f.encode(args, req, pick(g, f.encode_notations()));
  Bytes want = s.encode(f.position(), args);
  CHECK(g, req.data == want, "%s: request is %s instead of %s", f.name().c_str(), hex(req.data).c_str(), hex(want).c_str());
  Source src(Bytes(req.data.begin() + static_cast<long>(s.isz), req.data.end()));
  Sink resp(wire_size(f.ret()));
  a->run(src, resp, static_cast<int>(g.index(a->io().size())));
  Call c = {a->what().id, args};
  if (a->what().stateful)
    c.args.push_back(1);
  Vals r = model_return(c.id, c.args, f.ret());
  expect_calls(g, std::vector<Call>(1, c), f.name().c_str());
  CHECK(g, resp.data == enc_all(f.ret(), r, s.fmt), "%s: response is %s instead of %s", f.name().c_str(), hex(resp.data).c_str(),
        hex(enc_all(f.ret(), r, s.fmt)).c_str());
  Source back(resp.data);
  Vals v = f.decode(back, pick(g, f.decode_notations()));
  CHECK(g, v == r, "%s: result is %s instead of %s", f.name().c_str(), str(v).c_str(), str(r).c_str());
  g.obs(req.data);
  g.obs(resp.data);
  // buffers of the dispatchers
  int d = pick(g, k->dispatchers());
  std::unique_ptr<IDispatcher> disp = k->make(d % 10, d / 10, 0);
  std::vector<size_t> sizes = disp->buffer_sizes();
  if (sizes.size() == 1)
    CHECK(g, sizes[0] == std::max(s.max_request(), s.max_response()), "buffer size is %zu instead of %zu", sizes[0],
          std::max(s.max_request(), s.max_response()));
  if (sizes.size() == 2)
    CHECK(g, sizes[0] == s.max_request() && sizes[1] == s.max_response(), "buffer sizes are %zu, %zu instead of %zu, %zu", sizes[0],
          sizes[1], s.max_request(), s.max_response());
  g.tag("rpc");
  g.nontrivial();
}

// ---------------------------------------------------------------- C08

static void prop_c08(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  Shape s(k);
  const IFunction &f = pick_fn(g, k);
  check_sizes(g, k, f);
  unsigned n = 1 + static_cast<unsigned>(g.below(3));
  for (unsigned i = 0; i < n; i++) {
    Vals args = g.values(f.params(), s.fmt);
    int how = pick(g, f.encode_notations());
    g.log("%s with notation %d", str(args).c_str(), how);
    Bytes want = s.encode(f.position(), args);
    Sink out(want.size());
    f.encode(args, out, how);
    g.obs(out.data);
    CHECK(g, out.data == want, "%s, %s: request for %s is %s instead of %s (notation %d)", f.name().c_str(), str(s.fmt).c_str(),
          str(args).c_str(), hex(out.data).c_str(), hex(want).c_str(), how);
    switch (g.below(3)) {
    case 0: {
      Sink a(want.size()), b(want.size());
      f.encode_twice(args, a, b);
      CHECK(g, a.data == want && b.data == want, "%s: the same message is written as %s then %s instead of %s", f.name().c_str(),
            hex(a.data).c_str(), hex(b.data).c_str(), hex(want).c_str());
      g.tag("written twice");
      break;
    }
    case 1: {
      Sink a(want.size());
      f.encode_tuple(args, a);
      CHECK(g, a.data == want, "%s: request out of a tuple is %s instead of %s", f.name().c_str(), hex(a.data).c_str(),
            hex(want).c_str());
      g.tag("out of a tuple");
      break;
    }
    default:;
    }
  }
  expect_calls(g, std::vector<Call>(), "making requests");
  if (!f.params().empty() || s.isz > 1)
    g.nontrivial();
  g.tag(s.isz > 1 ? "two-byte index" : "one-byte index");
  if (f.position() >= 128)
    g.tag("position >= 128");
}

// ---------------------------------------------------------------- C09

static Source next_bytes(Gen &g, const Bytes &mine, Bytes &extra) {
  extra = g.chance(1, 2) ? g.bytes(g.below(6)) : Bytes();
  Bytes b = mine;
  b.insert(b.end(), extra.begin(), extra.end());
  return Source(b);
}
static void expect_consumed(Gen &g, const Source &s, bool counts, size_t n, const char *what) {
  if (counts) {
    CHECK(g, s.overruns == 0 && s.pos == n && s.calls == static_cast<long>(n), "%s: %ld bytes requested, %zu consumed, instead of %zu", what, s.calls, s.pos,
          n);
  }
}

static void prop_c09(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  Shape s(k);
  size_t n = 1 + g.below(5);
  std::vector<const IFunction *> fs;
  std::vector<Bytes> bs;
  Bytes stream;
  for (size_t i = 0; i < n; i++) {
    fs.push_back(&pick_fn(g, k));
    const Leaves &r = fs[i]->ret();
    bs.push_back(g.chance(1, 2) ? enc_all(r, g.values(r, s.fmt), s.fmt) : g.bytes(wire_size(r)));
    stream.insert(stream.end(), bs[i].begin(), bs[i].end());
  }
  size_t trailing = g.below(4);
  for (size_t i = 0; i < trailing; i++)
    stream.push_back(g.byte());
  g.log("stream %s", hex(stream).c_str());
  Source src(stream);
  std::vector<std::unique_ptr<IAction>> hooks(k->exposed());
  std::vector<long> runs(k->exposed());
  bool void_result = false;
  for (size_t i = 0; i < n; i++) {
    const IFunction &f = *fs[i];
    Vals want = dec_all(f.ret(), bs[i].data(), s.fmt);
    size_t len = bs[i].size(), before = src.pos;
    void_result = void_result || !len;
    if (g.chance(1, 2)) {
      int how = pick(g, f.decode_notations());
      g.log("decode response %zu with notation %d", i, how);
      Vals v;
      bool exact = !in_counts(how) && g.chance(1, 2);
      if (exact) {
        Source own(bs[i]);
        v = f.decode(own, how);
      } else
        v = f.decode(src, how);
      if (in_counts(how) && !exact) {
        CHECK(g, src.pos == before + len && src.overruns == 0 && src.calls == static_cast<long>(src.pos),
              "%s: the response takes %zu bytes but %zu were read (notation %d)", f.name().c_str(), len, src.pos - before, how);
      } else {
        src.pos = before + len;
        src.calls = static_cast<long>(src.pos);
      }
      g.obs(v);
      CHECK(g, v == want, "%s, %s: response %s is decoded as %s instead of %s (notation %d)", f.name().c_str(), str(s.fmt).c_str(),
            hex(bs[i]).c_str(), str(v).c_str(), str(want).c_str(), how);
      expect_calls(g, std::vector<Call>(), "decoding a response");
      g.tag("read_from");
    } else {
      size_t e = 0;
      while (&k->fn(e) != &f)
        e++;
      if (!hooks[e] || g.chance(1, 3)) {
        int kind = static_cast<int>(g.below(H_COUNT));
        g.log("make a hook of kind %d", kind);
        unsigned long allocs = g_allocs; // a hook which stores its callable is allowed to allocate
        hooks[e] = f.hook(kind, DYNAMIC_ID + static_cast<int>(i));
        if (!hooks[e]->is_static())
          g_allocs = allocs;
        runs[e] = 0;
      }
      IAction &h = *hooks[e];
      CHECK(g, h.input_size() == len, "%s: the hook takes %zu bytes instead of %zu", f.name().c_str(), h.input_size(), len);
      CHECK(g, h.output_size() == wire_size(h.ret()), "%s: the hook emits %zu bytes instead of %zu", f.name().c_str(), h.output_size(),
            wire_size(h.ret()));
      bool no_out = h.has_no_output_form() && g.chance(1, 2), counts;
      Sink out(wire_size(h.ret()));
      if (no_out) {
        int in = static_cast<int>(g.below(IN_COUNT));
        g.log("response %zu to the hook, input %d", i, in);
        counts = in_counts(in);
        h.run_no_output(src, in);
      } else {
        int io = static_cast<int>(g.index(h.io().size()));
        g.log("response %zu to the hook, notations %d", i, io);
        counts = in_counts(h.io()[static_cast<size_t>(io)].in);
        h.run(src, out, io);
      }
      if (counts)
        CHECK(g, src.pos == before + len && src.overruns == 0 && src.calls == static_cast<long>(src.pos),
              "%s: the response takes %zu bytes but the hook read %zu", f.name().c_str(), len, src.pos - before);
      src.pos = before + len;
      src.calls = static_cast<long>(src.pos);
      Call c = {h.what().id, want};
      if (h.what().stateful)
        c.args.push_back(++runs[e]);
      expect_calls(g, std::vector<Call>(1, c), "running a hook");
      Bytes result = no_out ? Bytes() : enc_all(h.ret(), model_return(c.id, c.args, h.ret()), s.fmt);
      CHECK(g, out.data == result, "the hook emitted %s instead of %s", hex(out.data).c_str(), hex(result).c_str());
      g.tag("hook");
    }
  }
  hooks.clear();
  CHECK(g, TT.alive == 0, "%ld hooked callbacks are still alive", TT.alive);
  sound(g, "hooks");
  if (n > 1)
    g.nontrivial();
  if (void_result)
    g.tag("result of no byte");
}

// ---------------------------------------------------------------- C10

// Model of an action
struct Act {
  std::unique_ptr<IAction> a;
  long count;
  Act() : count(0) {}
};
static void run_act(Gen &g, const Fmt &fmt, Act &x) {
  IAction &a = *x.a;
  bool empty = a.empty();
  size_t in_size = empty ? 0 : wire_size(a.params()), out_size = empty ? 0 : wire_size(a.ret());
  if (!empty) {
    CHECK(g, a.input_size() == in_size, "action input size is %zu instead of %zu", a.input_size(), in_size);
    CHECK(g, a.output_size() == out_size, "action output size is %zu instead of %zu", a.output_size(), out_size);
  }
  Bytes b = empty                 ? g.bytes(3)
            : g.chance(1, 2) ? enc_all(a.params(), g.values(a.params(), fmt), fmt)
                                  : g.bytes(in_size);
  Bytes extra;
  Source src = next_bytes(g, b, extra);
  Sink out(out_size);
  bool no_out = a.has_no_output_form() && g.chance(1, 4), counts;
  if (no_out) {
    int in = static_cast<int>(g.below(IN_COUNT));
    g.log("run without output on %s, input %d", hex(src.data).c_str(), in);
    counts = in_counts(in);
    a.run_no_output(src, in);
  } else {
    int io = static_cast<int>(g.index(a.io().size()));
    g.log("run on %s, notations %d", hex(src.data).c_str(), io);
    counts = in_counts(a.io()[static_cast<size_t>(io)].in);
    a.run(src, out, io);
  }
  expect_consumed(g, src, counts, in_size, "running an action");
  if (empty) {
    expect_calls(g, std::vector<Call>(), "running an empty action");
    CHECK(g, out.data.empty(), "an empty action emitted %s", hex(out.data).c_str());
    g.tag("empty action");
    return;
  }
  Call c = {a.what().id, dec_all(a.params(), b.data(), fmt)};
  if (a.what().stateful)
    c.args.push_back(++x.count);
  expect_calls(g, std::vector<Call>(1, c), "running an action");
  Bytes want = no_out ? Bytes() : enc_all(a.ret(), model_return(c.id, c.args, a.ret()), fmt);
  CHECK(g, out.data == want, "the action emitted %s instead of %s", hex(out.data).c_str(), hex(want).c_str());
  g.obs(out.data);
}

static void prop_c10(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  const IFunction &f = pick_fn(g, k);
  int kind = static_cast<int>(g.below(A_COUNT));
  g.log("action of kind %d", kind);
  Act x;
  x.a = f.action(kind, DYNAMIC_ID);
  unsigned n = 1 + static_cast<unsigned>(g.below(4));
  for (unsigned i = 0; i < n; i++)
    run_act(g, k->fmt(), x);
  if (g.chance(1, 3)) {
    // the same arguments give the same bytes whether or not the callable is stored
    Act y;
    y.a = f.action(kind == A_STATIC_FUNCTION ? A_FUNCTION : A_STATIC_FUNCTION, DYNAMIC_ID);
    run_act(g, k->fmt(), y);
  }
  x.a.reset();
  sound(g, "actions");
  if (!f.params().empty() || !f.ret().empty())
    g.nontrivial();
  g.tag(kind == A_STATIC_FUNCTION || kind == A_STATIC_FUNCTOR ? "static action" : "action");
}

// ---------------------------------------------------------------- model of a dispatcher

struct Cur {
  int id;
  bool stateful;
  long count;
  bool tracked;
};
struct Model {
  std::vector<Cur> cur;
  Bytes in, out;
  size_t next;
  Model() : next(0) {}
  bool loaded() const { return next != out.size(); }
};

struct Outcome {
  int status;
  bool called, threw;
  Call call;
  Outcome() : status(ST_LOADING), called(false), threw(false) {}
};

struct Dut {
  Gen *g;
  const IKeyring *k;
  Shape s;
  std::unique_ptr<IDispatcher> d;
  Model m;
  int kind, policy;
  Dut(Gen &gen, const IKeyring *kr, int kind_, int policy_) : g(&gen), k(kr), s(kr), kind(kind_), policy(policy_) {
    int how = static_cast<int>(gen.below(4));
    d = kr->make(kind, policy, how);
    for (size_t i = 0; i < s.n; i++) {
      Cur c = {kr->ids()[i], false, 0, false};
      m.cur.push_back(c);
    }
    gen.log("dispatcher of kind %d, policy %d, made with notation %d", kind, policy, how);
  }
  Dut(Gen &gen, const Dut &o, std::unique_ptr<IDispatcher> x)
      : g(&gen), k(o.k), s(o.s), d(std::move(x)), m(o.m), kind(o.kind), policy(o.policy) {}
  bool separate() const { return kind == D_DOUBLE || kind == D_CUSTOM_DOUBLE; }
  bool may_input() const { return separate() || !m.loaded(); }

  // ---- model

  // The model performs the call of function i with the given argument bytes
  Outcome model_call(size_t i, const uint8_t *args, bool throws) {
    Outcome o;
    o.status = ST_RESOLVED;
    o.called = true;
    o.call.id = m.cur[i].id;
    o.call.args = dec_all(s.params(i), args, s.fmt);
    if (m.cur[i].stateful)
      o.call.args.push_back(++m.cur[i].count);
    m.out.clear();
    m.next = 0;
    if (throws && !is_nothrow(o.call.id))
      o.threw = true;
    else
      m.out = enc_all(s.ret(i), model_return(o.call.id, o.call.args, s.ret(i)), s.fmt);
    return o;
  }
  Outcome model_put(uint8_t b, bool throws) {
    Outcome o;
    m.in.push_back(b);
    if (m.in.size() < s.isz)
      return o;
    uint64_t i = s.get_index(m.in.data());
    if (i >= s.n) {
      m.in.clear();
      o.status = ST_DROPPED;
      return o;
    }
    if (m.in.size() == s.request(i)) {
      Bytes in;
      in.swap(m.in);
      return model_call(i, in.data() + s.isz, throws);
    }
    return o;
  }
  // Bytes completing the packet in progress (or making a new one)
  Bytes complete(unsigned unknown, unsigned garbage) {
    Bytes r;
    if (m.in.empty()) {
      if (g->chance(unknown, 100)) {
        s.put_index(s.unknown_index(*g), r);
        return r;
      }
      if (!g->chance(garbage, 100)) {
        size_t i = s.random_position(*g);
        s.put_index(i, r);
        Bytes a = s.any_args(*g, i);
        r.insert(r.end(), a.begin(), a.end());
        return r;
      }
    }
    // random continuation
    Bytes in = m.in;
    for (;;) {
      if (in.size() >= s.isz) {
        uint64_t i = s.get_index(in.data());
        if (i >= s.n || in.size() == s.request(i))
          return r;
      }
      r.push_back(g->byte());
      in.push_back(r.back());
    }
  }

  void expect(const Outcome &o, const char *when) {
    expect_calls(*g, o.called ? std::vector<Call>(1, o.call) : std::vector<Call>(), when);
    sound(*g, when);
  }
  void check_loaded() {
    bool l = d->is_loaded();
    CHECK(*g, l == m.loaded(), "is_loaded() is %d with %zu pending bytes", l, m.out.size() - m.next);
  }

  // ---- operations on the dispatcher and on the model

  // One byte; `boom`: the callback throws if called
  Outcome put(uint8_t b, bool boom) {
    Outcome o = model_put(b, boom);
    HH.throw_in = boom ? 1 : 0;
    int st = -1;
    bool threw = false;
    try {
      st = d->put(b);
    } catch (const Boom &x) {
      g_in_lib = 0;
      threw = true;
      CHECK(*g, o.threw && x.id == o.call.id, "put(%02x): unexpected exception of f%d", b, x.id);
    }
    HH.throw_in = 0;
    g->log("put(%02x) -> %s", b, threw ? "exception" : st == ST_LOADING ? "loading" : st == ST_DROPPED ? "dropped" : "resolved");
    CHECK(*g, threw == o.threw, "put(%02x): the exception of the callback was lost", b);
    if (!threw)
      CHECK(*g, st == o.status, "put(%02x) gives status %d instead of %d (0: loading, 1: dropped, 2: resolved)", b, st, o.status);
    g->obs(static_cast<uint64_t>(st));
    expect(o, "put");
    return o;
  }
  // Rest of a packet at once
  Outcome read(unsigned unknown, unsigned garbage, bool boom, bool src_throw) {
    Bytes b = complete(unknown, garbage), extra;
    std::vector<int> ns = d->read_notations();
    int how = pick(*g, ns);
    if (src_throw && !in_counts(how))
      how = IN_LAMBDA;
    if (b.empty())
      return Outcome();
    Source src = next_bytes(*g, b, extra);
    size_t feed = b.size();
    if (src_throw) {
      src.throw_at = static_cast<long>(g->below(b.size()));
      feed = static_cast<size_t>(src.throw_at);
    }
    Outcome o;
    for (size_t i = 0; i < feed; i++)
      o = model_put(b[i], boom);
    HH.throw_in = boom ? 1 : 0;
    int st = -1;
    bool threw = false, sthrew = false;
    try {
      st = d->read_from(src, how);
    } catch (const Boom &) {
      g_in_lib = 0;
      threw = true;
    } catch (const Src_error &) {
      g_in_lib = 0;
      sthrew = true;
    }
    HH.throw_in = 0;
    g->log("read_from(%s%s) notation %d -> %s", hex(b).c_str(), extra.empty() ? "" : (" " + hex(extra)).c_str(), how,
           threw ? "exception" : sthrew ? "exception of the source" : std::to_string(st).c_str());
    CHECK(*g, sthrew == src_throw, "read_from: the exception of the source was lost");
    CHECK(*g, threw == o.threw, "read_from: the exception of the callback was lost");
    expect_consumed(*g, src, in_counts(how), feed, "read_from");
    if (!threw && !sthrew)
      CHECK(*g, st == o.status, "read_from(%s) gives status %d instead of %d (0: loading, 1: dropped, 2: resolved)", hex(b).c_str(), st,
            o.status);
    g->obs(static_cast<uint64_t>(st));
    expect(o, "read_from");
    return o;
  }
  uint8_t get() {
    uint8_t w = m.loaded() ? m.out[m.next++] : 0;
    uint8_t b = d->get();
    g->log("get() -> %02x", b);
    CHECK(*g, b == w, "get() gives %02x instead of %02x (response %s, %zu bytes left)", b, w, hex(m.out).c_str(),
          m.out.size() - m.next);
    g->obs(b);
    return b;
  }
  Bytes write() {
    Bytes w(m.out.begin() + static_cast<long>(m.next), m.out.end());
    int how = pick(*g, d->write_notations());
    Sink out(w.size());
    d->write_to(out, how);
    g->log("write_to() notation %d -> %s", how, hex(out.data).c_str());
    CHECK(*g, out.data == w, "write_to emits %s instead of %s (notation %d)", hex(out.data).c_str(), hex(w).c_str(), how);
    m.next = m.out.size();
    g->obs(out.data);
    return w;
  }
  // The destination has refused byte number `at` of the bytes `w`: the next ones are pending, maybe with the refused one
  void refused(const Bytes &w, size_t at) {
    if (separate() && m.in.empty() && g->chance(1, 2)) { // the next response replaces them
      m.next = m.out.size();
      process(0, 0, false, false);
      return;
    }
    Bytes with(w.begin() + static_cast<long>(at), w.end()), without(w.begin() + static_cast<long>(at) + 1, w.end());
    Sink out(with.size());
    if (g->chance(1, 3))
      while (d->is_loaded() && out.data.size() <= with.size())
        out.data.push_back(d->get());
    else
      d->write_to(out, OUT_LAMBDA);
    g->log("then the rest of the response: %s", hex(out.data).c_str());
    CHECK(*g, out.data == without || out.data == with, "after byte %zu of %s has been refused with an exception, %s is emitted", at,
          hex(w).c_str(), hex(out.data).c_str());
    m.next = m.out.size();
    check_loaded();
  }
  // write_to() a destination which refuses a byte
  void write_refused() {
    Bytes w(m.out.begin() + static_cast<long>(m.next), m.out.end());
    std::vector<int> ns = d->write_notations();
    int how = pick(*g, ns);
    if (!out_counts(how))
      how = OUT_LAMBDA;
    size_t at = g->below(w.size());
    Sink out(w.size());
    out.throw_at = static_cast<long>(at);
    bool threw = false;
    try {
      d->write_to(out, how);
    } catch (const Dest_error &) {
      g_in_lib = 0;
      threw = true;
    }
    g->log("write_to() notation %d -> %s, then an exception of the destination", how, hex(out.data).c_str());
    CHECK(*g, threw, "write_to: the exception of the destination was lost");
    CHECK(*g, out.data == Bytes(w.begin(), w.begin() + static_cast<long>(at)), "write_to emits %s instead of the start of %s",
          hex(out.data).c_str(), hex(w).c_str());
    refused(w, at);
  }
  // operator()(input, output) of buffered dispatchers
  Outcome process(unsigned unknown, unsigned garbage, bool boom, bool src_throw, bool dest_throw = false) {
    Bytes b = complete(unknown, garbage), extra;
    if (b.empty())
      return Outcome();
    int io = static_cast<int>(g->index(d->io().size()));
    bool counts = in_counts(d->io()[static_cast<size_t>(io)].in);
    if (!counts)
      src_throw = false;
    Source src = next_bytes(*g, b, extra);
    size_t feed = b.size();
    if (src_throw) {
      src.throw_at = static_cast<long>(g->below(b.size()));
      feed = static_cast<size_t>(src.throw_at);
    }
    Outcome o;
    for (size_t i = 0; i < feed; i++)
      o = model_put(b[i], boom);
    Bytes w = o.status == ST_RESOLVED && !o.threw && !src_throw ? m.out : Bytes();
    Sink out(w.size());
    dest_throw = dest_throw && !w.empty() && out_counts(d->io()[static_cast<size_t>(io)].out);
    size_t at = dest_throw ? g->below(w.size()) : 0;
    if (dest_throw)
      out.throw_at = static_cast<long>(at);
    HH.throw_in = boom ? 1 : 0;
    uint64_t st = 99;
    bool threw = false, sthrew = false, dthrew = false;
    try {
      st = d->process(src, out, io);
    } catch (const Boom &) {
      g_in_lib = 0;
      threw = true;
    } catch (const Src_error &) {
      g_in_lib = 0;
      sthrew = true;
    } catch (const Dest_error &) {
      g_in_lib = 0;
      dthrew = true;
    }
    HH.throw_in = 0;
    g->log("dispatcher(%s%s) notations %d -> %s, %s", hex(b).c_str(), extra.empty() ? "" : (" " + hex(extra)).c_str(), io,
           threw    ? "exception"
           : sthrew ? "exception of the source"
           : dthrew ? "exception of the destination"
                    : std::to_string(st).c_str(),
           hex(out.data).c_str());
    CHECK(*g, sthrew == src_throw && threw == o.threw && dthrew == dest_throw, "operator(): an exception was lost");
    expect_consumed(*g, src, counts, feed, "operator()");
    if (!threw && !sthrew && !dthrew)
      CHECK(*g, st == static_cast<uint64_t>(o.status), "operator()(%s) gives status %lu instead of %d", hex(b).c_str(),
            static_cast<unsigned long>(st), o.status);
    if (dthrew) {
      CHECK(*g, out.data == Bytes(w.begin(), w.begin() + static_cast<long>(at)), "operator() emits %s instead of the start of %s",
            hex(out.data).c_str(), hex(w).c_str());
      expect(o, "operator()");
      refused(w, at);
      return o;
    }
    CHECK(*g, out.data == w, "operator() emits %s instead of %s", hex(out.data).c_str(), hex(w).c_str());
    if (o.status == ST_RESOLVED && !threw && !sthrew)
      m.next = m.out.size();
    g->obs(st);
    g->obs(out.data);
    expect(o, "operator()");
    return o;
  }
  // Plain dispatcher: one request
  void plain(unsigned unknown, bool boom, bool src_throw, bool dest_throw = false) {
    Bytes b = complete(unknown, 10), extra;
    m.in.clear();
    uint64_t i = s.get_index(b.data());
    int io = static_cast<int>(g->index(d->io().size()));
    bool counts = in_counts(d->io()[static_cast<size_t>(io)].in);
    int form = boom || src_throw || dest_throw ? 0 : static_cast<int>(g->below(6));
    if (form) // get_index, get_action
      counts = form <= 3 || form == 5;
    if (!counts)
      src_throw = false;
    Source src = next_bytes(*g, b, extra);
    if (src_throw)
      src.throw_at = static_cast<long>(g->below(b.size()));
    if (form == 1) {
      uint64_t x = d->get_index(src);
      g->log("get_index(%s) -> %lu", hex(src.data).c_str(), static_cast<unsigned long>(x));
      CHECK(*g, x == i, "get_index gives %lu instead of %lu", static_cast<unsigned long>(x), static_cast<unsigned long>(i));
      expect_consumed(*g, src, true, s.isz, "get_index");
      expect_calls(*g, std::vector<Call>(), "get_index");
      if (i < s.n && g->chance(1, 2)) {
        // then the action of that index on the remaining bytes
        int io2 = static_cast<int>(g->below(3)) == 0 ? 0 : 2; // counted ones
        bool konst = g->chance(1, 2);
        Outcome o = model_call(i, b.data() + s.isz, false);
        Sink out(m.out.size());
        d->run_action(i, src, out, io2, konst);
        g->log("then d[%lu]", static_cast<unsigned long>(i));
        expect_consumed(*g, src, true, b.size(), "get_index then operator[]");
        CHECK(*g, out.data == m.out, "operator[] emits %s instead of %s", hex(out.data).c_str(), hex(m.out).c_str());
        expect(o, "operator[]");
      }
      m.out.clear();
      m.next = 0;
      return;
    }
    if (form == 2) {
      bool run = g->chance(1, 2);
      Outcome o;
      if (run && i < s.n)
        o = model_call(i, b.data() + s.isz, false);
      Sink out(m.out.size());
      bool found = d->get_action(src, run, out);
      g->log("get_action(%s) -> %s%s", hex(src.data).c_str(), found ? "found" : "null", run ? ", run" : "");
      CHECK(*g, found == (i < s.n), "get_action gives %s for index %lu out of %zu", found ? "an action" : "null",
            static_cast<unsigned long>(i), s.n);
      expect_consumed(*g, src, true, run && found ? b.size() : s.isz, "get_action");
      CHECK(*g, out.data == m.out, "the action emits %s instead of %s", hex(out.data).c_str(), hex(m.out).c_str());
      expect(o, "get_action");
      m.out.clear();
      return;
    }
    if (form == 3 && i < s.n) {
      bool konst = g->chance(1, 2);
      CHECK(*g, d->input_size(i, konst) == wire_size(s.params(i)), "d[%lu].input_size() is %zu", static_cast<unsigned long>(i),
            d->input_size(i, konst));
      CHECK(*g, d->output_size(i, konst) == wire_size(s.ret(i)), "d[%lu].output_size() is %zu", static_cast<unsigned long>(i),
            d->output_size(i, konst));
      Outcome o = model_call(i, b.data() + s.isz, false);
      src.data.erase(src.data.begin(), src.data.begin() + static_cast<long>(s.isz));
      Sink out(m.out.size());
      int io2 = static_cast<int>(g->below(3));
      d->run_action(i, src, out, io2, konst);
      g->log("d[%lu](%s) -> %s", static_cast<unsigned long>(i), hex(src.data).c_str(), hex(out.data).c_str());
      expect_consumed(*g, src, io2 != 1, wire_size(s.params(i)), "operator[]");
      CHECK(*g, out.data == m.out, "operator[] emits %s instead of %s", hex(out.data).c_str(), hex(m.out).c_str());
      expect(o, "operator[]");
      m.out.clear();
      return;
    }
    counts = in_counts(d->io()[static_cast<size_t>(io)].in);
    Outcome o;
    size_t feed = b.size();
    if (src_throw)
      feed = static_cast<size_t>(src.throw_at);
    else if (i < s.n)
      o = model_call(i, b.data() + s.isz, boom);
    Sink out(m.out.size());
    dest_throw = dest_throw && !m.out.empty() && out_counts(d->io()[static_cast<size_t>(io)].out);
    if (dest_throw) {
      out.throw_at = static_cast<long>(g->below(m.out.size()));
      m.out.resize(static_cast<size_t>(out.throw_at));
    }
    HH.throw_in = boom ? 1 : 0;
    bool threw = false, sthrew = false, dthrew = false;
    uint64_t x = 0;
    try {
      x = d->process(src, out, io);
    } catch (const Boom &) {
      g_in_lib = 0;
      threw = true;
    } catch (const Src_error &) {
      g_in_lib = 0;
      sthrew = true;
    } catch (const Dest_error &) {
      g_in_lib = 0;
      dthrew = true;
    }
    HH.throw_in = 0;
    g->log("dispatcher(%s%s) notations %d -> %s, %s", hex(b).c_str(), extra.empty() ? "" : (" " + hex(extra)).c_str(), io,
           threw ? "exception" : sthrew ? "exception of the source" : dthrew ? "exception of the destination" : std::to_string(x).c_str(), hex(out.data).c_str());
    CHECK(*g, threw == o.threw && sthrew == src_throw && dthrew == dest_throw, "operator(): an exception was lost or appeared");
    if (!threw && !sthrew && !dthrew)
      CHECK(*g, x == i, "operator() returns index %lu instead of %lu", static_cast<unsigned long>(x), static_cast<unsigned long>(i));
    expect_consumed(*g, src, counts, feed, "operator()");
    CHECK(*g, out.data == m.out, "operator() emits %s instead of %s", hex(out.data).c_str(), hex(m.out).c_str());
    g->obs(x);
    g->obs(out.data);
    expect(o, "operator()");
    m.out.clear();
    m.next = 0;
  }
  // Replacement
  void replace() {
    size_t f = g->index(k->exposed());
    size_t p = k->fn(f).position();
    int how = static_cast<int>(g->below(static_cast<uint64_t>(d->replace_notations())));
    int id = DYNAMIC_ID + 1000 + (HH.unique++ & 0xfff);
    if (g->chance(1, 6)) {
      unsigned long allocs = g_allocs; // an action which stores its callable is allowed to allocate
      std::unique_ptr<IAction> a = k->fn(f).action(static_cast<int>(g->below(A_EMPTY)), id);
      if (!a->is_static())
        g_allocs = allocs;
      if (d->take_action(f, *a)) {
        g->log("d[%zu] = action", p);
        m.cur[p].id = a->what().id;
        m.cur[p].stateful = a->what().stateful;
        m.cur[p].tracked = a->what().tracked;
        m.cur[p].count = 0;
        expect(Outcome(), "assigning an action");
        return;
      }
    }
    Installed r = d->replace(f, how, id);
    g->log("replace<%zu> notation %d -> f%d", p, how, r.id);
    m.cur[p].id = r.id;
    m.cur[p].stateful = r.stateful;
    m.cur[p].tracked = r.tracked;
    m.cur[p].count = 0;
    expect(Outcome(), "replace");
    g->tag("replace");
  }
  // Reply to the peer
  void reply() {
    const IKeyring *peer = k->peer();
    Shape ps(peer);
    size_t f = g->index(peer->exposed());
    const IFunction &pf = peer->fn(f);
    size_t len = wire_size(pf.params());
    bool partly = m.next != 0, fits = m.out.size() <= len, pending = m.loaded();
    Sink out(0);
    int how = pick(*g, d->reply_notations());
    if (how == OUT_POINTER || !in_counts(how))
      out.room = 0;
    bool ok_expected = !partly && fits;
    out.room = ok_expected ? ps.request(pf.position()) : 0;
    if (!partly && m.out.empty())
      how = OUT_LAMBDA; // nothing to send: either answer is accepted
    bool ok = d->reply(f, out, how);
    g->log("reply with an array of %zu bytes, %zu pending bytes%s -> %d %s", len, m.out.size() - m.next, partly ? " (partly retrieved)" : "",
           ok, hex(out.data).c_str());
    if (partly || m.out.size())
      CHECK(*g, ok == ok_expected, "reply with an array of %zu bytes gives %d for a response of %zu bytes, %zu of them retrieved", len, ok,
            m.out.size(), m.next);
    if (ok) {
      CHECK(*g, out.data.size() == ps.request(pf.position()), "reply emitted %zu bytes instead of %zu", out.data.size(),
            ps.request(pf.position()));
      Bytes head;
      ps.put_index(pf.position(), head);
      head.insert(head.end(), m.out.begin(), m.out.end());
      CHECK(*g, std::equal(head.begin(), head.end(), out.data.begin()), "reply emitted %s instead of %s...", hex(out.data).c_str(),
            hex(head).c_str());
      // the peer receives the response
      std::unique_ptr<IDispatcher> pd = peer->make(D_PLAIN, P_WEAK, 0);
      Source src(out.data);
      Sink none(wire_size(pf.ret()));
      Fmt saved = HH.fmt;
      HH.fmt = peer->fmt();
      uint64_t i = pd->process(src, none, 0);
      HH.fmt = saved;
      CHECK(*g, i == pf.position() && HH.calls.size() == 1 && HH.calls[0].id == pf.id(), "the peer called %s", str(HH.calls).c_str());
      for (size_t b = 0; b < m.out.size(); b++)
        CHECK(*g, HH.calls[0].args[b] == m.out[b], "byte %zu received by the peer differs", b);
      HH.calls.clear();
      for (size_t b = 0; b < head.size(); b++)
        g->obs(out.data[b]);
      if (pending)
        g->tag("replied");
      m.next = m.out.size();
    } else {
      CHECK(*g, out.data.empty(), "reply emitted %s and reported failure", hex(out.data).c_str());
      g->tag(partly ? "refused: partly retrieved" : "refused: too long");
    }
    g->obs(ok);
    check_loaded();
    expect(Outcome(), "reply");
  }
};

static bool buffered(int kind) { return kind != D_PLAIN; }

static bool pick_dispatcher(Gen &g, const IKeyring *k, bool (*ok)(int kind, int policy), int &kind, int &policy) {
  std::vector<int> v;
  for (size_t i = 0; i < k->dispatchers().size(); i++) {
    int x = k->dispatchers()[i];
    if (ok(x % 10, x / 10))
      v.push_back(x);
  }
  if (v.empty())
    return false;
  int x = pick(g, v);
  kind = x % 10;
  policy = x / 10;
  return true;
}
static bool is_buffered(int kind, int) { return kind != D_PLAIN; }
static bool is_plain(int kind, int) { return kind == D_PLAIN; }
static bool is_separate(int kind, int) { return kind == D_DOUBLE || kind == D_CUSTOM_DOUBLE; }
static bool is_any(int, int) { return true; }
static bool is_weak(int, int policy) { return policy == P_WEAK; }
static bool is_storing(int, int policy) { return policy == P_ANY; }

// What a history is made of, in percents of the steps
struct Mix {
  unsigned unknown = 15; // unknown indices, among packets
  unsigned garbage = 10; // random packets, among packets
  unsigned replace = 0;
  unsigned move = 0;
  unsigned reply = 0;
  unsigned boom = 0;      // throwing callbacks, among packets
  unsigned src_throw = 0; // throwing sources, among reads
  unsigned dest_throw = 0; // throwing destinations, among writes
  unsigned bytewise = 50; // single puts rather than reads, among inputs
  unsigned steps = 14;
};
struct Stats {
  unsigned resolved = 0, dropped = 0, moved = 0, replaced = 0, threw = 0, refused = 0, replied = 0, input_while_pending = 0, output_while_loading = 0,
           split = 0, moved_midway = 0, kinds = 0;
};

// One step of a history over a buffered dispatcher
static void buffered_step(Gen &g, Dut &x, const Mix &mix_, Bytes &todo, Stats &st) {
  if (g.chance(mix_.replace, 100)) {
    x.replace();
    st.replaced++;
    return;
  }
  if (g.chance(mix_.reply, 100)) {
    x.reply();
    st.replied++;
    return;
  }
  switch (g.below(8)) {
  case 0:
    x.check_loaded();
    g.log("is_loaded() -> %d", x.m.loaded());
    return;
  case 1:
  case 2:
    if (!x.m.in.empty() && x.m.loaded())
      st.output_while_loading++;
    x.get();
    x.check_loaded();
    return;
  case 3:
    if (!x.m.in.empty() && x.m.loaded())
      st.output_while_loading++;
    if (x.m.loaded() && g.chance(mix_.dest_throw, 100)) {
      x.write_refused();
      st.refused++;
    } else
      x.write();
    x.check_loaded();
    return;
  default:;
  }
  if (!x.may_input()) {
    // a single buffer cannot receive before the response has been sent
    if (g.chance(1, 2))
      x.get();
    else
      x.write();
    x.check_loaded();
    return;
  }
  if (x.m.loaded())
    st.input_while_pending++;
  Outcome o;
  bool boom = g.chance(mix_.boom, 100);
  bool midway = !x.m.in.empty();
  if (g.chance(mix_.bytewise, 100)) {
    if (todo.empty() || x.m.in.empty())
      todo = x.complete(mix_.unknown, mix_.garbage);
    size_t n = g.chance(1, 3) ? 1 : 1 + g.below(todo.size());
    for (size_t i = 0; i < n && !todo.empty(); i++) {
      uint8_t b = todo[0];
      todo.erase(todo.begin());
      o = x.put(b, boom);
      x.check_loaded();
      if (o.status != ST_LOADING)
        break;
    }
  } else {
    todo.clear();
    bool src_throw = g.chance(mix_.src_throw, 100);
    if (g.chance(1, 2))
      o = x.read(mix_.unknown, mix_.garbage, boom, src_throw);
    else
      o = x.process(mix_.unknown, mix_.garbage, boom, src_throw, g.chance(mix_.dest_throw, 100));
    if (midway && o.status != ST_LOADING)
      st.split++;
    x.check_loaded();
  }
  if (o.status == ST_RESOLVED)
    st.resolved++;
  if (o.status == ST_DROPPED)
    st.dropped++;
  if (o.threw)
    st.threw++;
}
// Everything still works: one valid packet for every exposed function (at most 4 of them)
static void probe(Gen &g, Dut &x) {
  if (buffered(x.kind)) {
    if (!x.may_input())
      x.write();
    if (!x.m.in.empty())
      x.read(0, 0, false, false);
    if (!x.may_input())
      x.write();
    for (int i = 0; i < 3; i++) {
      x.process(0, 0, false, false);
      x.check_loaded();
      x.get();
    }
  } else
    for (int i = 0; i < 3; i++)
      x.plain(0, false, false);
  sound(g, "history");
}

static void tag_kind(Gen &g, const Dut &x) {
  static const char *const names[] = {"plain", "single", "double", "custom single", "custom double"};
  g.tag(names[x.kind]);
  g.tag(x.policy == P_ANY ? "storing policy" : "static policy");
}

// ---------------------------------------------------------------- C11

static void prop_c11(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  int kind, policy;
  if (!pick_dispatcher(g, k, is_plain, kind, policy))
    return;
  Dut x(g, k, kind, policy);
  unsigned n = 1 + static_cast<unsigned>(g.below(6));
  for (unsigned i = 0; i < n; i++)
    x.plain(30, false, false);
  tag_kind(g, x);
  if (x.s.isz > 1)
    g.tag("two-byte index");
  if (n > 1)
    g.nontrivial();
}

// ---------------------------------------------------------------- C12

static void prop_c12(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  int kind, policy;
  if (!pick_dispatcher(g, k, is_any, kind, policy))
    return;
  Dut x(g, k, kind, policy);
  Shape &s = x.s;
  size_t n = 1 + g.below(6);
  // the caller writes all its requests in a stream, the callee answers in another one
  bool pipelined = g.chance(1, 2);
  std::vector<const IFunction *> fs;
  std::vector<Vals> argss, results;
  Bytes requests;
  std::vector<size_t> lens;
  for (size_t i = 0; i < n; i++) {
    const IFunction &f = pick_fn(g, k);
    Vals args = g.values(f.params(), s.fmt);
    fs.push_back(&f);
    argss.push_back(args);
    Vals direct = f.direct(args);
    Call c = {f.id(), args};
    expect_calls(g, std::vector<Call>(1, c), "direct call");
    results.push_back(direct);
    Sink req(s.request(f.position()));
    f.encode(args, req, pick(g, f.encode_notations()));
    lens.push_back(req.data.size());
    requests.insert(requests.end(), req.data.begin(), req.data.end());
    g.log("request %zu: %s", i, hex(req.data).c_str());
  }
  Source src(requests);
  Bytes responses;
  size_t decoded = 0;
  Source resp;
  for (size_t i = 0; i < n; i++) {
    const IFunction &f = *fs[i];
    size_t before = src.pos;
    Sink out(wire_size(f.ret()));
    std::string how;
    if (kind == D_PLAIN || g.chance(1, 3)) {
      int io = static_cast<int>(g.index(x.d->io().size()));
      uint64_t r = x.d->process(src, out, io);
      CHECK(g, r == (kind == D_PLAIN ? f.position() : static_cast<uint64_t>(ST_RESOLVED)), "request %zu for %s: dispatching gives %lu", i,
            f.name().c_str(), static_cast<unsigned long>(r));
      if (in_counts(x.d->io()[static_cast<size_t>(io)].in))
        CHECK(g, src.pos == before + lens[i] && !src.overruns, "request %zu: %zu bytes consumed instead of %zu", i, src.pos - before,
              lens[i]);
      src.pos = before + lens[i];
    } else {
      if (g.chance(1, 2)) {
        int st = ST_LOADING;
        size_t fed = 0;
        while (st == ST_LOADING && src.pos < requests.size()) {
          st = x.d->put(src.next());
          fed++;
        }
        CHECK(g, st == ST_RESOLVED, "request %zu for %s: status %d after %zu bytes", i, f.name().c_str(), st, fed);
        CHECK(g, fed == lens[i], "request %zu for %s resolved after %zu bytes instead of %zu", i, f.name().c_str(), fed, lens[i]);
      } else {
        int hw = pick(g, x.d->read_notations());
        int st = x.d->read_from(src, hw);
        CHECK(g, st == ST_RESOLVED, "request %zu for %s: status %d", i, f.name().c_str(), st);
        if (in_counts(hw))
          CHECK(g, src.pos == before + lens[i] && !src.overruns, "request %zu: %zu bytes consumed instead of %zu", i, src.pos - before,
                lens[i]);
        src.pos = before + lens[i];
      }
      if (g.chance(1, 2)) {
        while (x.d->is_loaded() && out.data.size() < 1000000)
          out.put(x.d->get());
      } else
        x.d->write_to(out, pick(g, x.d->write_notations()));
    }
    Call c = {f.id(), argss[i]};
    expect_calls(g, std::vector<Call>(1, c), "remote call");
    responses.insert(responses.end(), out.data.begin(), out.data.end());
    resp.data = responses;
    g.obs(out.data);
    g.log("response %zu: %s", i, hex(out.data).c_str());
    // the caller decodes responses immediately or at the end
    while (decoded <= i && (!pipelined || i + 1 == n)) {
      const IFunction &df = *fs[decoded];
      int hw = pick(g, df.decode_notations());
      size_t at = resp.pos, len = wire_size(df.ret());
      CHECK(g, resp.data.size() >= at + len, "the response of %s is missing", df.name().c_str());
      Vals v = df.decode(resp, hw);
      if (in_counts(hw))
        CHECK(g, resp.pos == at + len, "decoding the response of %s took %zu bytes instead of %zu", df.name().c_str(), resp.pos - at, len);
      resp.pos = at + len;
      CHECK(g, v == results[decoded], "remote call of %s with %s gives %s instead of %s", df.name().c_str(), str(argss[decoded]).c_str(),
            str(v).c_str(), str(results[decoded]).c_str());
      decoded++;
    }
  }
  CHECK(g, resp.pos == responses.size(), "%zu bytes of response are left over", responses.size() - resp.pos);
  sound(g, "remote calls");
  tag_kind(g, x);
  g.tag(pipelined ? "pipelined" : "call by call");
  if (n > 1)
    g.nontrivial();
}

// ---------------------------------------------------------------- C13, C14, C16, C17, C20: histories

static void history(Gen &g, bool (*ok)(int, int), const Mix &m, Stats &st, bool dense = false) {
  const IKeyring *k = pick_keyring(g);
  int kind, policy;
  if (!pick_dispatcher(g, k, ok, kind, policy))
    return;
  Dut x(g, k, kind, policy);
  Bytes todo;
  unsigned n = 3 + static_cast<unsigned>(g.below(m.steps));
  if (dense)
    n *= 2;
  for (unsigned i = 0; i < n; i++) {
    if (buffered(kind))
      buffered_step(g, x, m, todo, st);
    else if (g.chance(m.replace, 100)) {
      x.replace();
      st.replaced++;
    } else {
      bool boom = g.chance(m.boom, 100), src = g.chance(m.src_throw, 100);
      bool dest = g.chance(m.dest_throw, 100);
      x.plain(m.unknown, boom && !src, src, dest && !boom && !src);
      st.resolved++;
      st.threw += boom || src || dest;
    }
  }
  probe(g, x);
  tag_kind(g, x);
  if (x.s.isz > 1)
    g.tag("two-byte index");
}

static void prop_c13(Gen &g) {
  Mix m;
  Stats st;
  m.unknown = 10;
  history(g, is_buffered, m, st);
  if (st.resolved >= 2)
    g.nontrivial();
  if (st.split)
    g.tag("packet cut between put and read");
}
static void prop_c14(Gen &g) {
  Mix m;
  Stats st;
  m.unknown = 50;
  history(g, is_buffered, m, st);
  if (st.dropped && st.resolved)
    g.nontrivial();
  if (st.dropped > 1)
    g.tag("several drops");
}
static void prop_c16(Gen &g) {
  Mix m;
  Stats st;
  m.bytewise = 80;
  m.unknown = 15;
  history(g, is_separate, m, st, true);
  if (st.input_while_pending || st.output_while_loading)
    g.nontrivial();
  if (st.input_while_pending)
    g.tag("input while a response is pending");
  if (st.output_while_loading)
    g.tag("output while a request is loading");
}
static void prop_c17(Gen &g) {
  Mix m;
  Stats st;
  m.replace = 30;
  if (g.chance(1, 4)) {
    // two dispatchers of the same keyring
    const IKeyring *k = pick_keyring(g);
    int kind, policy;
    if (!pick_dispatcher(g, k, is_any, kind, policy))
      return;
    Dut x(g, k, kind, policy), y(g, k, kind, policy);
    Bytes tx, ty;
    unsigned n = 4 + static_cast<unsigned>(g.below(12));
    for (unsigned i = 0; i < n; i++) {
      bool first = g.chance(1, 2);
      g.log("on dispatcher %d:", first ? 1 : 2);
      Dut &d = first ? x : y;
      if (buffered(kind))
        buffered_step(g, d, m, first ? tx : ty, st);
      else if (g.chance(1, 3))
        d.replace(), st.replaced++;
      else
        d.plain(10, false, false), st.resolved++;
    }
    probe(g, x);
    probe(g, y);
    g.tag("two dispatchers");
    tag_kind(g, x);
  } else
    history(g, is_any, m, st);
  if (st.replaced)
    g.nontrivial();
}
static void prop_c20(Gen &g) {
  Mix m;
  Stats st;
  m.boom = 40;
  m.src_throw = 30;
  m.dest_throw = 25;
  m.unknown = 8;
  m.replace = 5;
  history(g, is_any, m, st);
  if (st.refused)
    g.tag("throwing destination");
  if (st.threw || st.refused)
    g.nontrivial();
}

// ---------------------------------------------------------------- C15

static void prop_c15(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  int kind, policy;
  if (!pick_dispatcher(g, k, is_buffered, kind, policy))
    return;
  Shape s(k);
  {
    std::unique_ptr<IDispatcher> d = k->make(kind, policy, 0);
    std::vector<size_t> sizes = d->buffer_sizes();
    if (sizes.size() == 1)
      CHECK(g, sizes[0] == std::max(s.max_request(), s.max_response()),
            "the buffer has %zu bytes while the largest packet has %zu", sizes[0], std::max(s.max_request(), s.max_response()));
    if (sizes.size() == 2)
      CHECK(g, sizes[0] == s.max_request() && sizes[1] == s.max_response(),
            "the buffers have %zu and %zu bytes while the largest request and response have %zu and %zu", sizes[0], sizes[1],
            s.max_request(), s.max_response());
  }
  Dut x(g, k, kind, policy);
  Mix m;
  Stats st;
  m.garbage = 50;
  m.unknown = 5;
  m.replace = 3;
  m.reply = k->peer() ? 5 : 0;
  Bytes todo;
  // the largest packets come first
  size_t big = 0, bigr = 0;
  for (size_t i = 0; i < s.n; i++) {
    if (s.request(i) > s.request(big))
      big = i;
    if (s.response(i) > s.response(bigr))
      bigr = i;
  }
  size_t order[] = {g.chance(1, 2) ? big : bigr, g.chance(1, 2) ? bigr : big};
  for (int t = 0; t < 2; t++) {
    if (!x.may_input())
      x.write();
    Bytes b;
    s.put_index(order[t], b);
    Bytes a = s.any_args(g, order[t]);
    b.insert(b.end(), a.begin(), a.end());
    for (size_t i = 0; i < b.size(); i++)
      x.put(b[i], false);
    if (g.chance(1, 2))
      while (x.m.loaded())
        x.get();
  }
  unsigned n = 2 + static_cast<unsigned>(g.below(12));
  for (unsigned i = 0; i < n; i++)
    buffered_step(g, x, m, todo, st);
  probe(g, x);
  tag_kind(g, x);
  g.nontrivial();
}

// ---------------------------------------------------------------- C18

static void prop_c18(Gen &g) {
  if (g.chance(1, 5)) {
    // actions
    const IKeyring *k = pick_keyring(g);
    const IFunction &f = pick_fn(g, k);
    int kind = static_cast<int>(g.below(A_EMPTY));
    Act x;
    x.a = f.action(kind, DYNAMIC_ID);
    g.log("action of kind %d", kind);
    unsigned n = 2 + static_cast<unsigned>(g.below(5));
    for (unsigned i = 0; i < n; i++)
      switch (g.below(4)) {
      case 0: {
        g.log("move construction");
        std::unique_ptr<IAction> y = x.a->move();
        if (x.a->empty()) {
          Act old;
          old.a = std::move(x.a);
          run_act(g, k->fmt(), old);
        }
        x.a = std::move(y);
        break;
      }
      case 1: {
        g.log("move assignment");
        Act y;
        y.a = f.action(x.a->is_static() ? A_STATIC_FUNCTION : static_cast<int>(g.chance(1, 2) ? A_EMPTY : A_RVALUE), DYNAMIC_ID + 7);
        CHECK(g, y.a->move_assign(*x.a), "wrong kinds");
        std::swap(x.a, y.a);
        break;
      }
      case 2: {
        std::unique_ptr<IAction> y = x.a->copy();
        if (y) {
          g.log("copy");
          Act z;
          z.a = std::move(y);
          run_act(g, k->fmt(), z);
        }
        break;
      }
      default:
        run_act(g, k->fmt(), x);
      }
    run_act(g, k->fmt(), x);
    x.a.reset();
    CHECK(g, TT.alive == 0, "%ld stored callables are still alive", TT.alive);
    sound(g, "moves");
    g.tag("action");
    g.nontrivial();
    return;
  }
  const IKeyring *k = pick_keyring(g);
  int kind, policy;
  if (!pick_dispatcher(g, k, is_any, kind, policy))
    return;
  std::vector<std::unique_ptr<Dut>> ds;
  std::vector<Bytes> todo(1);
  ds.emplace_back(new Dut(g, k, kind, policy));
  Mix m;
  m.replace = 12;
  m.bytewise = 75;
  Stats st;
  unsigned n = 5 + static_cast<unsigned>(g.below(14));
  for (unsigned i = 0; i < n; i++) {
    size_t w = g.index(ds.size());
    Dut &x = *ds[w];
    if (ds.size() > 1)
      g.log("on dispatcher %zu:", w);
    bool midway = !x.m.in.empty() || x.m.loaded();
    long copies = TT.copies;
    switch (g.below(6)) {
    case 0: {
      g.log("move construction (%zu bytes received, %zu pending)", x.m.in.size(), x.m.out.size() - x.m.next);
      x.d = x.d->move();
      st.moved++;
      st.moved_midway += midway;
      CHECK(g, TT.copies == copies, "moving a dispatcher copied callables");
      if (buffered(kind))
        x.check_loaded();
      break;
    }
    case 1: {
      std::unique_ptr<IDispatcher> y;
      if (policy == P_WEAK)
        y = static_cast<const Dut &>(x).d->copy();
      if (y && ds.size() < 3) {
        g.log("copy construction as dispatcher %zu", ds.size());
        ds.emplace_back(new Dut(g, x, std::move(y)));
        todo.push_back(todo[w]);
        st.moved++;
        st.moved_midway += midway;
        g.tag("copy");
        break;
      }
    }
    // fall through
    case 2: {
      // into a dispatcher with a history of its own
      Dut y(g, k, kind, policy);
      Bytes t;
      Stats s2;
      for (unsigned j = g.below(4) ? 2 : 0; j > 0; j--)
        if (buffered(kind))
          buffered_step(g, y, m, t, s2);
        else
          y.plain(10, false, false);
      g.log("%s assignment (%zu bytes received, %zu pending)", policy == P_WEAK && i % 2 ? "copy" : "move", x.m.in.size(),
            x.m.out.size() - x.m.next);
      copies = TT.copies;
      if (policy == P_WEAK && i % 2) {
        CHECK(g, y.d->copy_assign(*x.d), "wrong kinds");
        y.m = x.m;
        if (ds.size() < 3) {
          ds.emplace_back(new Dut(g, y, std::move(y.d)));
          todo.push_back(todo[w]);
        } else {
          std::swap(x.d, y.d);
        }
      } else {
        CHECK(g, y.d->move_assign(*x.d), "wrong kinds");
        x.d = std::move(y.d);
      }
      CHECK(g, TT.copies == copies, "moving a dispatcher copied callables");
      st.moved++;
      st.moved_midway += midway;
      if (buffered(kind))
        ds[w]->check_loaded();
      break;
    }
    default:
      if (buffered(kind))
        buffered_step(g, x, m, todo[w], st);
      else if (g.chance(1, 5))
        x.replace();
      else
        x.plain(10, false, false);
    }
  }
  for (size_t i = 0; i < ds.size(); i++)
    probe(g, *ds[i]);
  tag_kind(g, *ds[0]);
  ds.clear();
  CHECK(g, TT.alive == 0, "%ld stored callables are still alive", TT.alive);
  sound(g, "moves");
  if (st.moved)
    g.nontrivial();
  if (st.moved_midway)
    g.tag("moved while receiving or sending");
}

// ---------------------------------------------------------------- C19

static void prop_c19(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  int kind, policy;
  if (!k->peer() || !pick_dispatcher(g, k, is_buffered, kind, policy))
    return;
  Dut x(g, k, kind, policy);
  Bytes todo;
  Mix m;
  Stats st;
  m.reply = 25;
  unsigned replies = 0;
  unsigned n = 1 + static_cast<unsigned>(g.below(5));
  for (unsigned i = 0; i < n; i++) {
    if (g.chance(1, 2)) {
      buffered_step(g, x, m, todo, st);
      continue;
    }
    // a response, possibly partly retrieved, then a reply
    if (!x.m.in.empty())
      x.read(0, 0, false, false), todo.clear();
    if (!x.may_input())
      x.write();
    Outcome o = x.read(5, 0, false, false);
    if (x.m.loaded() && g.chance(1, 3))
      x.get();
    if (x.separate() && g.chance(1, 3)) {
      // part of the next request has already been received
      Bytes b = x.complete(0, 0);
      size_t cut = g.below(b.size());
      for (size_t j = 0; j < cut; j++)
        x.put(b[j], false);
      g.tag("reply while loading");
    }
    bool was = x.m.loaded();
    // the key recovers the value from the array
    Bytes pending = x.m.out;
    x.reply();
    if (was) {
      replies++;
      for (size_t e = 0; e < k->exposed() && o.status == ST_RESOLVED && !x.m.loaded(); e++)
        if (k->ids()[k->fn(e).position()] == o.call.id && k->fn(e).id() == o.call.id) {
          Bytes padded = pending;
          padded.resize(pending.size() + 3, 0x11);
          Source src(padded);
          Vals v = k->fn(e).decode(src, IN_LAMBDA), w = model_return(o.call.id, o.call.args, k->fn(e).ret());
          CHECK(g, v == w, "the peer decodes %s instead of %s", str(v).c_str(), str(w).c_str());
        }
    }
  }
  probe(g, x);
  tag_kind(g, x);
  if (replies)
    g.nontrivial();
}

// ---------------------------------------------------------------- C21

static void prop_c21(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  Shape s(k);
  const IFunction &f = pick_fn(g, k);
  size_t p = f.position();
  Vals args = g.values(f.params(), s.fmt);
  Bytes req = s.encode(p, args);
  int kind, policy;
  switch (g.below(5)) {
  case 0: { // requests
    std::vector<int> ns = f.encode_notations();
    for (size_t i = 0; i < ns.size(); i++) {
      Sink out(req.size());
      f.encode(args, out, ns[i]);
      CHECK(g, out.data == req, "%s: request %s with notation %d but %s is expected", f.name().c_str(), hex(out.data).c_str(), ns[i],
            hex(req).c_str());
    }
    g.tag("request");
    break;
  }
  case 1: { // responses
    Bytes b = g.bytes(wire_size(f.ret())), extra;
    Vals w = dec_all(f.ret(), b.data(), s.fmt);
    std::vector<int> ns = f.decode_notations();
    for (size_t i = 0; i < ns.size(); i++) {
      Source src = next_bytes(g, b, extra);
      Vals v = f.decode(src, ns[i]);
      CHECK(g, v == w, "%s: response %s gives %s with notation %d but %s is expected", f.name().c_str(), hex(b).c_str(), str(v).c_str(),
            ns[i], str(w).c_str());
      expect_consumed(g, src, in_counts(ns[i]), b.size(), ("read_from with notation " + std::to_string(ns[i])).c_str());
    }
    g.tag("response");
    break;
  }
  case 2: { // actions
    int ak = static_cast<int>(g.below(A_EMPTY));
    if (ak == A_STATEFUL || ak == A_STATEFUL_LVALUE)
      ak = A_RVALUE;
    std::unique_ptr<IAction> a = f.action(ak, DYNAMIC_ID);
    Bytes b(req.begin() + static_cast<long>(s.isz), req.end()), extra;
    Bytes w = enc_all(f.ret(), model_return(a->what().id, args, f.ret()), s.fmt);
    Call c = {a->what().id, args};
    for (size_t i = 0; i < a->io().size(); i++) {
      Source src = next_bytes(g, b, extra);
      Sink out(w.size());
      a->run(src, out, static_cast<int>(i));
      std::string what = "action with input " + std::to_string(a->io()[i].in) + " and output " + std::to_string(a->io()[i].out);
      CHECK(g, out.data == w, "%s: %s instead of %s", what.c_str(), hex(out.data).c_str(), hex(w).c_str());
      expect_consumed(g, src, in_counts(a->io()[i].in), b.size(), what.c_str());
      expect_calls(g, std::vector<Call>(1, c), what.c_str());
    }
    if (a->has_no_output_form())
      for (int in = 0; in < IN_COUNT; in++) {
        Source src = next_bytes(g, b, extra);
        a->run_no_output(src, in);
        expect_consumed(g, src, in_counts(in), b.size(), "action without output");
        expect_calls(g, std::vector<Call>(1, c), "action without output");
      }
    g.tag("action");
    break;
  }
  case 3: { // dispatchers
    if (!pick_dispatcher(g, k, is_any, kind, policy))
      return;
    Dut x(g, k, kind, policy);
    Bytes extra, w = enc_all(f.ret(), model_return(f.id(), args, f.ret()), s.fmt);
    Call c = {f.id(), args};
    for (size_t i = 0; i < x.d->io().size(); i++) {
      Source src = next_bytes(g, req, extra);
      Sink out(w.size());
      uint64_t r = x.d->process(src, out, static_cast<int>(i));
      std::string what = "dispatcher with input " + std::to_string(x.d->io()[i].in) + " and output " + std::to_string(x.d->io()[i].out);
      CHECK(g, r == (kind == D_PLAIN ? p : static_cast<uint64_t>(ST_RESOLVED)), "%s: result %lu", what.c_str(),
            static_cast<unsigned long>(r));
      CHECK(g, out.data == w, "%s: %s instead of %s", what.c_str(), hex(out.data).c_str(), hex(w).c_str());
      expect_consumed(g, src, in_counts(x.d->io()[i].in), req.size(), what.c_str());
      expect_calls(g, std::vector<Call>(1, c), what.c_str());
    }
    tag_kind(g, x);
    break;
  }
  default: { // buffered dispatchers: read_from and write_to
    if (!pick_dispatcher(g, k, is_buffered, kind, policy))
      return;
    Dut x(g, k, kind, policy);
    Bytes extra, w = enc_all(f.ret(), model_return(f.id(), args, f.ret()), s.fmt);
    Call c = {f.id(), args};
    std::vector<int> rs = x.d->read_notations(), ws = x.d->write_notations();
    for (size_t i = 0; i < std::max(rs.size(), ws.size()); i++) {
      int rn = rs[i % rs.size()], wn = ws[(i * 7 + 3) % ws.size()];
      // some bytes one by one, the others at once
      size_t cut = g.below(req.size());
      for (size_t j = 0; j < cut; j++) {
        int st = x.d->put(req[j]);
        CHECK(g, st == ST_LOADING, "status %d after %zu bytes out of %zu", st, j + 1, req.size());
      }
      Source src = next_bytes(g, Bytes(req.begin() + static_cast<long>(cut), req.end()), extra);
      int st = x.d->read_from(src, rn);
      CHECK(g, st == ST_RESOLVED, "read_from with notation %d gives status %d", rn, st);
      expect_consumed(g, src, in_counts(rn), req.size() - cut, ("read_from with notation " + std::to_string(rn)).c_str());
      expect_calls(g, std::vector<Call>(1, c), "read_from");
      Sink out(w.size());
      x.d->write_to(out, wn);
      CHECK(g, out.data == w, "write_to with notation %d emits %s instead of %s", wn, hex(out.data).c_str(), hex(w).c_str());
    }
    tag_kind(g, x);
    g.tag("read_from and write_to");
  }
  }
  sound(g, "notations");
  g.nontrivial();
}

// ---------------------------------------------------------------- C22

static void region_ops(Gen &g) {
  switch (g.below(3)) {
  case 0:
    prop_c03(g);
    break;
  case 1:
    prop_c04(g);
    break;
  default:
    prop_c05(g);
  }
}
static void prop_c22(Gen &g) {
  unsigned part = static_cast<unsigned>(g.below(6));
  if (part == 0 && !typelists().empty()) {
    region_ops(g);
    g.tag("tuples and views");
  } else if (part == 1) {
    switch (g.below(4)) {
    case 0:
      prop_c08(g);
      break;
    case 1:
      prop_c09(g);
      break;
    default: { // actions which do not store their callable, and execution of any action
      const IKeyring *k = pick_keyring(g);
      const IFunction &f = pick_fn(g, k);
      int kind = static_cast<int>(g.below(A_EMPTY));
      Act x;
      x.a = f.action(kind, DYNAMIC_ID);
      if (!x.a->is_static())
        g_allocs = 0; // storing a callable may allocate, running it may not
      run_act(g, k->fmt(), x);
      run_act(g, k->fmt(), x);
    }
    }
    g.tag("keys and actions");
  } else {
    const IKeyring *k = pick_keyring(g);
    int kind, policy;
    if (!pick_dispatcher(g, k, is_weak, kind, policy))
      return;
    Dut x(g, k, kind, policy);
    Mix m;
    Stats st;
    m.replace = 10;
    m.reply = k->peer() ? 10 : 0;
    m.boom = 5;
    Bytes todo;
    unsigned n = 4 + static_cast<unsigned>(g.below(12));
    for (unsigned i = 0; i < n; i++) {
      if (g.chance(1, 12)) {
        x.d = x.d->move();
        continue;
      }
      if (buffered(kind))
        buffered_step(g, x, m, todo, st);
      else if (g.chance(1, 6))
        x.replace();
      else
        x.plain(20, false, false);
    }
    probe(g, x);
    tag_kind(g, x);
  }
  CHECK(g, g_allocs == 0, "%lu dynamic allocations", g_allocs);
  g.nontrivial();
}
static bool alloc_applicable() { return has_keyrings() && g_alloc_counting; }

// ---------------------------------------------------------------- C23

static void prop_c23(Gen &g) {
  const IKeyring *k = pick_keyring(g);
  if (g.chance(1, 2)) {
    // a pool of actions and hooks
    std::vector<Act> pool;
    unsigned n = 3 + static_cast<unsigned>(g.below(12)), next = 0;
    long alive = 0;
    for (unsigned i = 0; i < n; i++) {
      size_t w = pool.empty() ? 0 : g.index(pool.size());
      switch (pool.empty() ? 0 : g.below(6)) {
      case 0:
      case 1: {
        const IFunction &f = pick_fn(g, k);
        Act x;
        if (g.chance(1, 4)) {
          int kind = static_cast<int>(g.below(H_COUNT));
          x.a = f.hook(kind, DYNAMIC_ID + static_cast<int>(next++));
          g.log("hook %zu of kind %d", pool.size(), kind);
          g.tag("hook");
        } else {
          static const int kinds[] = {A_RVALUE, A_LVALUE, A_CONST_LVALUE, A_MOVE_ONLY, A_STATEFUL, A_STATEFUL_LVALUE, A_BIG, A_LAMBDA, A_FUNCTION};
          int kind = kinds[g.below(9)];
          x.a = f.action(kind, DYNAMIC_ID + static_cast<int>(next++));
          g.log("action %zu of kind %d", pool.size(), kind);
        }
        alive += x.a->what().tracked;
        pool.push_back(std::move(x));
        break;
      }
      case 2: { // destroy
        g.log("destroy %zu", w);
        alive -= pool[w].a->what().tracked && !pool[w].a->empty();
        pool.erase(pool.begin() + static_cast<long>(w));
        break;
      }
      case 3: { // move construction
        g.log("move %zu", w);
        long copies = TT.copies;
        pool[w].a = pool[w].a->move();
        CHECK(g, TT.copies == copies, "moving an action copied its callable");
        break;
      }
      case 4: { // move assignment
        size_t v = g.index(pool.size());
        if (v == w)
          break;
        bool vt = pool[v].a->what().tracked && !pool[v].a->empty();
        long copies = TT.copies;
        if (pool[v].a->move_assign(*pool[w].a)) {
          g.log("%zu = move(%zu)", v, w);
          alive -= vt;
          pool[v].count = pool[w].count;
          CHECK(g, TT.copies == copies, "moving an action copied its callable");
          g.tag("move assignment");
        }
        break;
      }
      default:
        g.log("run %zu", w);
        run_act(g, k->fmt(), pool[w]);
      }
      CHECK(g, TT.alive == alive, "%ld stored callables are alive instead of %ld", TT.alive, alive);
      sound(g, "ownership");
    }
    pool.clear();
  } else {
    int kind, policy;
    if (!pick_dispatcher(g, k, is_storing, kind, policy))
      return;
    Dut x(g, k, kind, policy);
    Mix m;
    Stats st;
    m.replace = 45;
    m.boom = 8;
    Bytes todo;
    unsigned n = 4 + static_cast<unsigned>(g.below(14));
    for (unsigned i = 0; i < n; i++) {
      if (g.chance(1, 8)) {
        long copies = TT.copies;
        g.log("move");
        x.d = x.d->move();
        CHECK(g, TT.copies == copies, "moving a dispatcher copied its callables");
      } else if (buffered(kind))
        buffered_step(g, x, m, todo, st);
      else if (g.chance(1, 2))
        x.replace();
      else
        x.plain(10, false, false);
      long alive = 0;
      for (size_t j = 0; j < x.m.cur.size(); j++)
        alive += x.m.cur[j].tracked;
      CHECK(g, TT.alive == alive, "%ld stored callables are alive instead of %ld", TT.alive, alive);
    }
    probe(g, x);
    tag_kind(g, x);
  }
  CHECK(g, TT.alive == 0, "%ld stored callables are still alive", TT.alive);
  CHECK(g, TT.created == TT.destroyed, "%ld instances created, %ld destroyed", TT.created, TT.destroyed);
  sound(g, "ownership");
  if (TT.created)
    g.nontrivial();
}

// ---------------------------------------------------------------- C07: everything, for the transcripts

static void prop_c07(Gen &g) {
  typedef void (*P)(Gen &);
  static const P tuples[] = {prop_c01, prop_c02, prop_c03, prop_c04, prop_c05, prop_c06};
  static const P rpc[] = {prop_c08, prop_c09, prop_c10, prop_c11, prop_c12, prop_c13, prop_c14, prop_c15, prop_c16, prop_c17,
                          prop_c18, prop_c19, prop_c20, prop_c21};
  if (keyrings().empty() || (!typelists().empty() && g.chance(1, 2)))
    tuples[g.below(6)](g);
  else
    rpc[g.below(14)](g);
}

// ---------------------------------------------------------------- C29: overlapping executions

static void any_property(Gen &g) {
  typedef void (*P)(Gen &);
  static const P tuples[] = {prop_c01, prop_c02, prop_c03, prop_c04, prop_c05, prop_c06};
  static const P rpc[] = {prop_c10, prop_c11, prop_c08, prop_c09, prop_c12, prop_c13, prop_c14, prop_c15, prop_c16, prop_c17,
                          prop_c18, prop_c19, prop_c20, prop_c21, prop_c23};
  if (keyrings().empty() || (!typelists().empty() && g.chance(1, 3)))
    tuples[g.below(6)](g);
  else
    rpc[g.below(15)](g);
}

// Switches to a context of its own, as if nothing else were in progress
struct Nested {
  Context *outer, inner;
  int in_lib;
  unsigned long allocs;
  Nested() : outer(current_context()), in_lib(g_in_lib), allocs(g_allocs) {
    g_in_lib = 0;
    t_context = &inner;
  }
  ~Nested() {
    t_context = outer;
    g_in_lib = in_lib;
    g_allocs = allocs;
  }
};
struct Nesting {
  Gen *g;
  unsigned depth, budget, done;
};
static void nest_any(Context &c) {
  Nesting &n = *static_cast<Nesting *>(c.nest_data);
  Gen &g = *n.g;
  n.done++;
  n.depth++;
  {
    g.log("{ another execution starts");
    Nested nested;
    if (n.depth < 3 && n.done < n.budget && g.chance(1, 3)) {
      nested.inner.nest_in = 1 + static_cast<long>(g.below(12));
      nested.inner.nest = nest_any;
      nested.inner.nest_data = c.nest_data;
    }
    any_property(g);
    g.log("} the other execution ends");
  }
  n.depth--;
  if (n.done < n.budget && g.chance(2, 3))
    c.nest_in = 1 + static_cast<long>(g.below(20));
}

// One request to a dispatcher or an action which keeps nothing between requests
struct Shared_target {
  const IKeyring *k;
  const IFunction *f; // of the action
  IAction *a;
  int a_id;
  IDispatcher *d;
  std::vector<int> ids; // current callables of the dispatcher
  Gen *g;               // for nested requests
  unsigned depth, done, budget;
};
static void shared_request(Gen &g, const Shared_target &t) {
  Shape s(t.k);
  if (t.a && g.chance(1, 3)) {
    Act x;
    struct Lend {
      Act &x;
      ~Lend() { x.a.release(); }
    } lend = {x};
    x.a.reset(t.a);
    run_act(g, t.k->fmt(), x);
    return;
  }
  size_t i = s.random_position(g);
  Bytes b;
  s.put_index(i, b);
  Bytes args = s.any_args(g, i);
  b.insert(b.end(), args.begin(), args.end());
  Call c = {t.ids[i], dec_all(s.params(i), args.data(), s.fmt)};
  Bytes want = enc_all(s.ret(i), model_return(c.id, c.args, s.ret(i)), s.fmt);
  std::vector<Call> calls(1, c);
  Source src(b);
  Sink out(want.size());
  switch (g.below(4)) {
  case 0: {
    g.log("get_action(%s)", hex(b).c_str());
    bool found = t.d->get_action(src, true, out);
    CHECK(g, found, "get_action(%s) finds nothing", hex(b).c_str());
    break;
  }
  case 1:
    g.log("d[%zu](%s)", i, hex(args).c_str());
    src = Source(args);
    t.d->run_action(i, src, out, g.chance(1, 2) ? 0 : 2, g.chance(1, 2));
    break;
  case 2: {
    g.log("get_index(%s)", hex(b).c_str());
    uint64_t x = t.d->get_index(src);
    CHECK(g, x == i, "get_index(%s) gives %lu", hex(b).c_str(), static_cast<unsigned long>(x));
    calls.clear();
    want.clear();
    break;
  }
  default: {
    int io = static_cast<int>(g.index(t.d->io().size()));
    g.log("dispatcher(%s)", hex(b).c_str());
    uint64_t x = t.d->process(src, out, io);
    CHECK(g, x == i, "operator() returns index %lu instead of %zu", static_cast<unsigned long>(x), i);
  }
  }
  CHECK(g, out.data == want, "the response to %s is %s instead of %s", hex(b).c_str(), hex(out.data).c_str(), hex(want).c_str());
  expect_calls(g, calls, "overlapping requests");
  sound(g, "overlapping requests");
}
static void nest_request(Context &c) {
  Shared_target &t = *static_cast<Shared_target *>(c.nest_data);
  Gen &g = *t.g;
  t.done++;
  t.depth++;
  {
    g.log("{ another request starts");
    Nested nested;
    nested.inner.harness.fmt = c.harness.fmt;
    nested.inner.harness.salt = c.harness.salt;
    if (t.depth < 4 && t.done < t.budget && g.chance(1, 2)) {
      nested.inner.nest_in = 1 + static_cast<long>(g.below(8));
      nested.inner.nest = nest_request;
      nested.inner.nest_data = c.nest_data;
    }
    shared_request(g, t);
    g.log("} the other request ends");
  }
  t.depth--;
  if (t.done < t.budget && g.chance(2, 3))
    c.nest_in = 1 + static_cast<long>(g.below(8));
}

struct Thread_job {
  uint64_t seed;
  unsigned cases;
  bool verbose;
  std::string desc;
  const IRegion *region;     // an object read by all threads
  const Region_model *model; // and its contents
};
static void *thread_main(void *p) {
  Thread_job &j = *static_cast<Thread_job *>(p);
  Context c;
  t_context = &c;
  g_in_lib = 0;
  Gen g;
  g.m_record = false;
  g.m_rng = j.seed;
  g.m_verbose = j.verbose;
  try {
    for (unsigned i = 0; i < j.cases; i++) {
      reset_case();
      if (j.region && g.chance(2, 3)) {
        size_t e = g.index(j.model->types.size());
        Vals v = j.region->get(e, static_cast<int>(g.below(static_cast<uint64_t>(j.region->get_notations()))));
        CHECK(g, v == j.model->get(e), "reading element %zu from several threads gives %s", e, str(v).c_str());
      } else
        any_property(g);
    }
  } catch (const std::exception &e) {
    g.fail("unexpected exception in a thread: %s", e.what());
  } catch (...) {
    g.fail("unexpected exception of unknown type in a thread");
  }
  j.desc = g.m_desc;
  t_context = nullptr;
  return nullptr;
}
static std::unique_ptr<ITuple> filled_tuple(Gen &g, Region_model &m) {
  const Typelist &t = *typelists()[g.index(typelists().size())];
  const Tuple_factory &f = t.tuples[g.index(t.tuples.size())];
  std::unique_ptr<ITuple> x = f.make();
  m = Region_model(t.types, f.fmt, x->offset());
  m.storage = x->dump();
  for (size_t i = 0; i < m.types.size(); i++) {
    Vals v = g.values(m.types[i].leaves, f.fmt);
    x->set(i, v, 0);
    m.set(i, v);
  }
  return x;
}

static void prop_c29(Gen &g) {
  uint64_t what = g.below(8);
  if (what < 5 || (what == 5 && !has_keyrings())) {
    Nesting n = {&g, 0, 1 + static_cast<unsigned>(g.below(4)), 0};
    Context &c = *current_context();
    c.nest_in = 1 + static_cast<long>(g.below(!has_keyrings() ? 2 : g.chance(1, 2) ? 6 : 40));
    c.nest = nest_any;
    c.nest_data = &n;
    g.m_nontrivial = false;
    any_property(g);
    g.m_nontrivial = n.done != 0;
    for (unsigned i = 0; i < n.done; i++)
      g.tag("nested executions");
    return;
  }
  // something to share
  Shared_target t = {nullptr, nullptr, nullptr, 0, nullptr, std::vector<int>(), &g, 0, 0, 0};
  std::unique_ptr<IAction> action;
  std::unique_ptr<Dut> dut;
  if (has_keyrings()) {
    t.k = pick_keyring(g);
    Shape s(t.k);
    int kind, policy;
    if (pick_dispatcher(g, t.k, is_plain, kind, policy)) {
      dut.reset(new Dut(g, t.k, kind, policy));
      for (unsigned n = static_cast<unsigned>(g.below(4)); n; n--)
        dut->replace();
      bool stateful = false;
      for (size_t i = 0; i < s.n; i++) {
        t.ids.push_back(dut->m.cur[i].id);
        stateful = stateful || dut->m.cur[i].stateful;
      }
      if (!stateful)
        t.d = dut->d.get();
    }
    const IFunction &f = pick_fn(g, t.k);
    action = f.action(static_cast<int>(g.below(A_EMPTY)), DYNAMIC_ID);
    if (!action->what().stateful)
      t.a = action.get();
  }
  if (what < 7 && t.d) {
    if (what == 5 || g.chance(1, 2)) {
      Context &c = *current_context();
      t.budget = 1 + static_cast<unsigned>(g.below(6));
      unsigned n = 1 + static_cast<unsigned>(g.below(3));
      for (unsigned i = 0; i < n; i++) {
        c.nest_in = 1 + static_cast<long>(g.below(8));
        c.nest = nest_request;
        c.nest_data = &t;
        shared_request(g, t);
        c.nest_in = 0;
      }
      if (t.done)
        g.nontrivial();
      for (unsigned i = 0; i < t.done; i++)
        g.tag("nested requests to the same object");
      return;
    }
  }
  // threads, which share constant objects only: dispatchers are documented not to be thread-safe
  Thread_job jobs[3];
  pthread_t ids[3];
  unsigned n = 2 + static_cast<unsigned>(g.below(2));
  std::unique_ptr<ITuple> tuple;
  Region_model m;
  if (!typelists().empty()) {
    tuple = filled_tuple(g, m);
    if (m.types.empty())
      tuple.reset();
  }
  for (unsigned i = 0; i < n; i++) {
    Thread_job j = {g.raw(), 2 + static_cast<unsigned>(g.below(8)), g.verbose(), "", tuple.get(), &m};
    jobs[i] = j;
  }
  for (unsigned i = 0; i < n; i++)
    if (pthread_create(&ids[i], nullptr, thread_main, &jobs[i])) {
      n = i; // no more threads available
      g.tag("threads which could not be created");
    }
  for (unsigned i = 0; i < n; i++)
    pthread_join(ids[i], nullptr);
  for (unsigned i = 0; i < n; i++)
    if (g.m_desc.size() < 6000)
      g.m_desc += "  thread:\n" + jobs[i].desc;
  if (n > 1)
    g.nontrivial();
  g.tag("threads");
}

// ---------------------------------------------------------------- table

static bool any_applicable() { return has_keyrings() || !typelists().empty(); }
const std::vector<Prop_entry> &properties() {
  static const std::vector<Prop_entry> v = {
      {"C01", "the encoded element has several bytes or is signed", prop_c01, any_applicable},
      {"C02", "at least one element is decoded from chosen bytes", prop_c02, any_applicable},
      {"C03", "the tuple has at least two elements", prop_c03, tuples_applicable},
      {"C04", "a view or a slice goes through a history", prop_c04, tuples_applicable},
      {"C05", "the formats differ, the views share their storage, or a tuple of several elements is invoked", prop_c05, tuples_applicable},
      {"C06", "a tuple, view or request is written and read back", prop_c06, any_applicable},
      {"C07", "the underlying scenario is non-trivial", prop_c07, any_applicable},
      {"C08", "the function has parameters or the index has several bytes", prop_c08, has_keyrings},
      {"C09", "at least two consecutive responses", prop_c09, has_keyrings},
      {"C10", "the function has a parameter or a result", prop_c10, has_keyrings},
      {"C11", "at least two requests", prop_c11, has_keyrings},
      {"C12", "at least two calls over the same dispatcher", prop_c12, has_keyrings},
      {"C13", "at least two packets resolved", prop_c13, has_keyrings},
      {"C14", "at least one packet dropped and one resolved", prop_c14, has_keyrings},
      {"C15", "a buffered dispatcher receives its largest packets then garbage", prop_c15, has_keyrings},
      {"C16", "bytes received while a response is pending, or retrieved while a request is loading", prop_c16, has_keyrings},
      {"C17", "at least one replacement", prop_c17, has_keyrings},
      {"C18", "at least one move or copy", prop_c18, has_keyrings},
      {"C19", "at least one reply attempted with a pending response", prop_c19, has_keyrings},
      {"C20", "at least one callback or source throws", prop_c20, has_keyrings},
      {"C21", "all notations of an operation are compared", prop_c21, has_keyrings},
      {"C22", "a complete history without stored callables", prop_c22, alloc_applicable},
      {"C29", "an operation is interrupted by another execution, or two threads run at the same time", prop_c29, any_applicable},
      {"C23", "at least one instance of a callable is stored", prop_c23, has_keyrings},
  };
  return v;
}
