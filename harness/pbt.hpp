// Property-testing engine: a case is a function of a sequence of choices.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <string>
#include <vector>

#include "model.hpp"

struct Engine_state;

class Gen {
public:
  uint64_t below(uint64_t n); // uniform in [0, n), 0 shrinks best
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  uint64_t raw() { return below(0); }
  uint8_t byte();
  V value(Leaf l, Fmt f);
  Vals values(const Leaves &ls, Fmt f);
  Bytes bytes(size_t n);
  size_t index(size_t n) { return static_cast<size_t>(below(n)); }

  // Reporting
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))); // only kept when the case is described
  bool verbose() const { return m_verbose; }
  void nontrivial() { m_nontrivial = true; }
  void tag(const char *name); // class counter
  // Observation, for differential runs
  void obs(uint64_t x) { m_obs = mix(m_obs, x); }
  void obs(const Bytes &b) {
    obs(b.size());
    for (size_t i = 0; i < b.size(); i++)
      obs(b[i]);
  }
  void obs(const Vals &v) {
    obs(v.size());
    for (size_t i = 0; i < v.size(); i++) {
      obs(static_cast<uint64_t>(v[i]));
      obs(static_cast<uint64_t>(v[i] >> 64));
    }
  }

  Gen() : m_mode(0), m_record(true), m_rng(0), m_pos(0), m_verbose(false), m_nontrivial(false), m_obs(0) {}
  int m_mode;    // 0: random, 1: replay
  bool m_record; // false: the choices and tags of this generator are not recorded (its seed is a choice of another one)
  uint64_t m_rng;
  size_t m_pos;
  std::vector<uint64_t> m_given;
  bool m_verbose, m_nontrivial;
  uint64_t m_obs;
  std::string m_desc;
};

#define CHECK(g, cond, ...)                                                                                            \
  do {                                                                                                                 \
    if (!(cond))                                                                                                       \
      (g).fail(__VA_ARGS__);                                                                                           \
  } while (0)

// A property is a function running one case
typedef void (*Prop)(Gen &);
struct Prop_entry {
  const char *id;
  const char *rule; // what makes a case non-trivial
  Prop run;
  bool (*applicable)(); // whether the program under test has what the property needs
};
const std::vector<Prop_entry> &properties();
// Reset the global state between cases
void reset_case();
