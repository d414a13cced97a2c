#include "pbt.hpp"

#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

#define MAX_CHOICES 200000
#define MAX_TAGS 96
#define FAIL_EXIT 77

struct Shared {
  volatile uint64_t case_index;
  volatile uint64_t done;
  volatile uint64_t evals, nontrivial;
  volatile uint64_t nchoices;
  char message[4096];
  uint64_t choices[MAX_CHOICES];
  struct {
    char name[48];
    uint64_t count;
  } tags[MAX_TAGS];
};
static Shared *sh;
static const Prop_entry *prop;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

uint64_t Gen::below(uint64_t n) {
  uint64_t x;
  if (m_mode == 1)
    x = m_pos < m_given.size() ? m_given[m_pos] : 0;
  else {
    m_rng += 0x9e3779b97f4a7c15ull;
    x = mix(m_rng);
  }
  if (n)
    x %= n;
  if (m_record && m_pos < MAX_CHOICES) {
    sh->choices[m_pos] = x;
    sh->nchoices = m_pos + 1;
  }
  m_pos++;
  return x;
}
uint8_t Gen::byte() {
  switch (below(4)) {
  case 0:
    return static_cast<uint8_t>(below(4));
  case 1:
    return static_cast<uint8_t>(255 - below(4));
  case 2: {
    static const uint8_t t[] = {0x7f, 0x80, 0x81, 0x40, 0x10, 0x55, 0xaa, 0x0f};
    return t[below(8)];
  }
  default:
    return static_cast<uint8_t>(below(256));
  }
}
V Gen::value(Leaf l, Fmt f) {
  unsigned pick = static_cast<unsigned>(below(12));
  return leaf_value(l, f, pick, pick < 5 ? 0 : raw());
}
Vals Gen::values(const Leaves &ls, Fmt f) {
  Vals v;
  for (size_t i = 0; i < ls.size(); i++)
    v.push_back(value(ls[i], f));
  return v;
}
Bytes Gen::bytes(size_t n) {
  Bytes b(n);
  for (size_t i = 0; i < n; i++)
    b[i] = byte();
  return b;
}
void Gen::fail(const char *fmt, ...) {
  static volatile int failed;
  if (__sync_lock_test_and_set(&failed, 1))
    for (;;)
      pause(); // another thread is reporting
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->message, sizeof sh->message, fmt, ap);
  va_end(ap);
  if (m_verbose)
    printf("%s  => FAILURE: %s\n", m_desc.c_str(), sh->message);
  fflush(stdout);
#ifdef FUZZING
  fprintf(stderr, "ORACLE: %s\n", sh->message);
  abort();
#endif
  _exit(FAIL_EXIT);
}
void Gen::log(const char *fmt, ...) {
  if (!m_verbose)
    return;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (m_desc.size() < 6000)
    m_desc += std::string("  ") + buf + "\n";
}
void Gen::tag(const char *name) {
  if (!m_record)
    return;
  for (int i = 0; i < MAX_TAGS; i++) {
    if (!sh->tags[i].name[0])
      snprintf(sh->tags[i].name, sizeof sh->tags[i].name, "%s", name);
    if (!strncmp(sh->tags[i].name, name, sizeof sh->tags[i].name - 1)) {
      sh->tags[i].count++;
      return;
    }
  }
}

static void run_case(Gen &g) {
  sh->nchoices = 0;
  sh->message[0] = 0;
  reset_case();
  try {
    prop->run(g);
  } catch (const std::exception &e) {
    g.fail("unexpected exception: %s", e.what());
  } catch (...) {
    g.fail("unexpected exception of unknown type");
  }
}

static std::string json(const std::string &s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '"' || c == '\\')
      r += std::string("\\") + s[i];
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += s[i];
  }
  return r + "\"";
}

static void limit_cpu(unsigned seconds) {
  rlimit r;
  r.rlim_cur = seconds;
  r.rlim_max = seconds + 1;
  setrlimit(RLIMIT_CPU, &r);
  rlimit c = {0, 0};
  setrlimit(RLIMIT_CORE, &c);
}

static std::string tmp_prefix;
static std::string stderr_head() {
  std::string s;
  FILE *f = fopen((tmp_prefix + ".err").c_str(), "r");
  if (!f)
    return s;
  char line[1024];
  int n = 0;
  while (n < 400 && fgets(line, sizeof line, f)) {
    n++;
    if (strstr(line, "runtime error") || strstr(line, "ERROR:") || strstr(line, "ThreadSanitizer") || strstr(line, "terminate called") ||
        strstr(line, "Assertion") || strstr(line, "what()") || strstr(line, "of size")) {
      s += line;
      if (s.size() > 900)
        break;
    }
  }
  fclose(f);
  while (!s.empty() && s[s.size() - 1] == '\n')
    s.erase(s.size() - 1);
  return s;
}

// Returns 0: passed, 1: failed (message set)
static int wait_child(pid_t pid, std::string &message) {
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == FAIL_EXIT) {
    message = sh->message;
    return 1;
  }
  std::string err = stderr_head();
  char buf[128];
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGVTALRM))
    snprintf(buf, sizeof buf, "the case did not terminate (CPU time limit)");
  else if (WIFSIGNALED(st))
    snprintf(buf, sizeof buf, "crashed with signal %d", WTERMSIG(st));
  else
    snprintf(buf, sizeof buf, "aborted with exit status %d", WEXITSTATUS(st));
  message = std::string(buf) + (err.empty() ? "" : ": " + err);
  return 1;
}

static void redirect_stderr() {
  int fd = open((tmp_prefix + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

static int try_choices(const std::vector<uint64_t> &c, std::string &message, bool verbose = false) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    limit_cpu(10);
    redirect_stderr();
    Gen g;
    g.m_mode = 1;
    g.m_given = c;
    g.m_verbose = verbose;
    run_case(g);
    if (verbose)
      printf("%s  => passed\n", g.m_desc.c_str());
    fflush(stdout);
    _exit(0);
  }
  return wait_child(pid, message);
}

static std::vector<uint64_t> used() {
  return std::vector<uint64_t>(sh->choices, sh->choices + (sh->nchoices < MAX_CHOICES ? sh->nchoices : MAX_CHOICES));
}

static bool is_oracle(const std::string &m) {
  return m.compare(0, 7, "crashed") && m.compare(0, 7, "aborted") && m.compare(0, 16, "the case did not");
}

static void shrink(std::vector<uint64_t> &c, std::string &message, double budget) {
  double end = now() + budget;
  bool oracle = is_oracle(message);
  std::string m;
  bool progress = true;
  struct Local {
    static bool attempt(std::vector<uint64_t> &c, std::vector<uint64_t> &cand, std::string &message, bool oracle) {
      std::string m;
      if (!try_choices(cand, m) || is_oracle(m) != oracle)
        return false;
      message = m;
      c = used();
      return true;
    }
  };
  while (progress && now() < end) {
    progress = false;
    for (size_t len = c.size() / 2 ? c.size() / 2 : 1; len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i + len <= c.size() && now() < end;) {
        std::vector<uint64_t> cand(c.begin(), c.begin() + static_cast<long>(i));
        cand.insert(cand.end(), c.begin() + static_cast<long>(i + len), c.end());
        size_t before = c.size();
        if (Local::attempt(c, cand, message, oracle) && c.size() < before)
          progress = true;
        else
          i += len;
      }
      if (len == 1)
        break;
    }
    for (size_t i = 0; i < c.size() && now() < end; i++) {
      if (!c[i])
        continue;
      uint64_t tries[] = {0, 1, c[i] / 2, c[i] - 1};
      for (int t = 0; t < 4 && i < c.size(); t++) {
        if (tries[t] >= c[i])
          continue;
        std::vector<uint64_t> cand = c;
        cand[i] = tries[t];
        if (Local::attempt(c, cand, message, oracle)) {
          progress = true;
          break;
        }
      }
    }
  }
}

static std::string describe(const std::vector<uint64_t> &c) {
  int p[2];
  if (pipe(p))
    return "";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    limit_cpu(10);
    dup2(p[1], 1);
    close(p[0]);
    redirect_stderr();
    Gen g;
    g.m_mode = 1;
    g.m_given = c;
    g.m_verbose = true;
    run_case(g);
    printf("%s  => passed\n", g.m_desc.c_str());
    fflush(stdout);
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char buf[4096];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0)
    if (s.size() < 8000)
      s.append(buf, static_cast<size_t>(n));
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  return s;
}

// Run cases [from, to) of a seed in one process: for failures which depend on what previous cases left behind
static int try_range(uint64_t seed, uint64_t from, uint64_t to, std::string &message, bool verbose = false) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    limit_cpu(600);
    redirect_stderr();
    for (uint64_t i = from; i < to; i++) {
      Gen g;
      g.m_rng = mix(seed, i);
      g.m_verbose = verbose;
      sh->case_index = i;
      run_case(g);
    }
    fflush(stdout);
    _exit(0);
  }
  return wait_child(pid, message);
}

static std::string list(const std::vector<uint64_t> &c) {
  std::string s = "[";
  for (size_t i = 0; i < c.size(); i++)
    s += (i ? "," : "") + std::to_string(c[i]);
  return s + "]";
}

#ifdef FUZZING
// Coverage-guided mode: bytes are turned into choices
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  sh = static_cast<Shared *>(calloc(1, sizeof(Shared)));
  const char *id = getenv("PBT_PROP");
  for (size_t i = 0; i < properties().size(); i++)
    if (id && !strcmp(properties()[i].id, id))
      prop = &properties()[i];
  if (!prop)
    abort();
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  Gen g;
  g.m_mode = 1;
  // one length nibble then that many bytes: most choices are small
  for (size_t i = 0; i < size;) {
    uint8_t h = data[i++];
    if (h < 248) {
      g.m_given.push_back(h);
    } else {
      uint64_t x = 0;
      for (unsigned k = 0; k < (h == 255 ? 8u : 2u) && i < size; k++)
        x = x << 8 | data[i++];
      g.m_given.push_back(x);
    }
  }
  run_case(g);
  if (g.m_nontrivial)
    sh->nontrivial++;
  // leave the choices where the crash handler of the parent can find them
  return 0;
}
// Print the choices of an input: used to turn a libFuzzer artifact into a replay file
#endif

int harness_main(int argc, char **argv) {
  std::string id, out, replay;
  uint64_t seed = 1, ncases = 1000, obs_from = 0, range_end = 0;
  double seconds = 1e9, shrink_seconds = 20;
  bool transcript = false, verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--prop")
      id = v, i++;
    else if (a == "--seed")
      seed = strtoull(v.c_str(), 0, 10), i++;
    else if (a == "--cases")
      ncases = strtoull(v.c_str(), 0, 10), i++;
    else if (a == "--seconds")
      seconds = atof(v.c_str()), i++;
    else if (a == "--shrink-seconds")
      shrink_seconds = atof(v.c_str()), i++;
    else if (a == "--out")
      out = v, i++;
    else if (a == "--replay")
      replay = v, i++;
    else if (a == "--to")
      range_end = strtoull(v.c_str(), 0, 10), i++;
    else if (a == "--transcript")
      transcript = true;
    else if (a == "--verbose")
      verbose = true;
    else if (a == "--from")
      obs_from = strtoull(v.c_str(), 0, 10), i++;
    else if (a == "--list") {
      for (size_t k = 0; k < properties().size(); k++)
        if (properties()[k].applicable())
          printf("%s\n", properties()[k].id);
      return 0;
    }
  }
  for (size_t i = 0; i < properties().size(); i++)
    if (properties()[i].id == id)
      prop = &properties()[i];
  if (!prop) {
    fprintf(stderr, "no property %s\n", id.c_str());
    return 2;
  }
  if (!prop->applicable()) {
    fprintf(stderr, "property %s not applicable to this program\n", id.c_str());
    return 2;
  }
  sh = static_cast<Shared *>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED)
    return 2;
  tmp_prefix = out.empty() ? "/tmp/pbt." + std::to_string(getpid()) : out;

  if (!replay.empty()) {
    std::vector<uint64_t> c;
    FILE *f = fopen(replay.c_str(), "r");
    if (!f)
      return 2;
    unsigned long long x;
    while (fscanf(f, "%llu", &x) == 1)
      c.push_back(x);
    fclose(f);
    std::string m;
    int r = try_choices(c, m, true);
    unlink((tmp_prefix + ".err").c_str());
    if (r)
      printf("FAILED: %s\n", m.c_str());
    return r ? 1 : 0;
  }

  if (range_end) {
    std::string m;
    int r = try_range(seed, obs_from, range_end, m, true);
    unlink((tmp_prefix + ".err").c_str());
    if (r)
      printf("FAILED: %s\n", m.c_str());
    return r ? 1 : 0;
  }

  if (transcript) {
    // One observation hash per case; crashes are recorded too
    FILE *f = fopen(out.c_str(), "w");
    if (!f)
      return 2;
    uint64_t i = obs_from;
    while (i < ncases) {
      int p[2];
      if (pipe(p))
        return 2;
      pid_t pid = fork();
      if (pid == 0) {
        close(p[0]);
        limit_cpu(static_cast<unsigned>(seconds < 600 ? seconds + 20 : 600));
        redirect_stderr();
        for (; i < ncases; i++) {
          Gen g;
          g.m_rng = mix(seed, i);
          g.m_verbose = verbose;
          run_case(g);
          if (verbose)
            printf("%s", g.m_desc.c_str()), fflush(stdout);
          uint64_t rec[3] = {i, g.m_obs, (g.m_nontrivial ? 1u : 0u)};
          if (write(p[1], rec, sizeof rec) < 0)
            _exit(3);
        }
        _exit(0);
      }
      close(p[1]);
      uint64_t rec[3];
      uint64_t last = i;
      size_t got = 0;
      ssize_t n;
      while ((n = read(p[0], reinterpret_cast<char *>(rec) + got, sizeof rec - got)) > 0) {
        got += static_cast<size_t>(n);
        if (got == sizeof rec) {
          got = 0;
          fprintf(f, "%llu %016llx %d\n", (unsigned long long)rec[0], (unsigned long long)rec[1], (int)rec[2]);
          last = rec[0] + 1;
        }
      }
      close(p[0]);
      std::string m;
      if (wait_child(pid, m)) {
        fprintf(f, "%llu crash 1 %s\n", (unsigned long long)last, json(m).c_str());
        last++;
        static int crashes = 0;
        if (++crashes > 5)
          break;
      }
      i = last;
    }
    fclose(f);
    unlink((tmp_prefix + ".err").c_str());
    return 0;
  }

  double t0 = now();
  std::string message;
  std::unordered_set<uint64_t> seen;
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr();
    limit_cpu(static_cast<unsigned>(seconds < 3000 ? seconds + 60 : 3000));
    FILE *hf = fopen((out + ".hashes").c_str(), "wb");
    FILE *sf = fopen((out + ".samples").c_str(), "w");
    int samples = 0;
    double last = t0;
    for (uint64_t i = 0; i < ncases; i++) {
      if ((i & 15) == 0) {
        last = now();
        if (last - t0 > seconds)
          break;
      }
      Gen g;
      g.m_rng = mix(seed, i);
      sh->case_index = i;
      itimerval tv = {{0, 0}, {10, 0}};
      setitimer(ITIMER_VIRTUAL, &tv, 0); // SIGVTALRM after 10 s of CPU time in one case
      run_case(g);
      sh->evals++;
      if (g.m_nontrivial) {
        sh->nontrivial++;
        uint64_t h = 0;
        for (size_t k = 0; k < sh->nchoices && k < MAX_CHOICES; k++)
          h = mix(h, sh->choices[k]);
        if (seen.size() < 400000 && seen.insert(h).second && hf)
          fwrite(&h, sizeof h, 1, hf);
        if (samples < 3 && sf && i > 8) {
          samples++;
          fprintf(sf, "%s\n", list(used()).c_str());
        }
      }
    }
    if (hf)
      fclose(hf);
    if (sf)
      fclose(sf);
    sh->done = 1;
    _exit(0);
  }
  int failed = wait_child(pid, message);
  std::vector<uint64_t> c;
  bool reproduced = true, history = false;
  uint64_t range_from = 0, range_to = 0;
  std::string desc;
  if (failed) {
    c = used();
    std::string m;
    // A first replay decides whether the failure depends on the choices only
    if (try_choices(c, m)) {
      message = m;
      shrink(c, message, shrink_seconds);
      int ok = 0;
      for (int k = 0; k < 3; k++)
        ok += try_choices(c, m);
      reproduced = ok == 3;
      desc = describe(c);
    } else {
      // Does it depend on the previous cases?
      uint64_t last = sh->case_index, from = last;
      last++;
      for (uint64_t back = 1; !history; back *= 8) {
        from = last > back ? last - back : 0;
        if (try_range(seed, from, last, m)) {
          history = true;
          reproduced = try_range(seed, from, last, m) && try_range(seed, from, last, m);
          message = "(after previous cases in the same process) " + m;
          range_from = from;
          range_to = last;
        }
        if (from == 0)
          break;
      }
      if (!history)
        reproduced = false;
    }
  }
  std::string samples;
  if (FILE *sf = fopen((out + ".samples").c_str(), "r")) {
    char *line = 0;
    size_t cap = 0;
    int k = 0;
    while (getline(&line, &cap, sf) > 0 && k < 2) {
      std::vector<uint64_t> s;
      for (char *q = line; *q;) {
        if (*q >= '0' && *q <= '9')
          s.push_back(strtoull(q, &q, 10));
        else
          q++;
      }
      samples += std::string(k++ ? "," : "") + json(describe(s));
    }
    free(line);
    fclose(sf);
  }
  unlink((out + ".samples").c_str());
  unlink((tmp_prefix + ".err").c_str());
  FILE *f = fopen(out.c_str(), "w");
  if (!f)
    return 2;
  fprintf(f, "{\"prop\":%s,\"rule\":%s,\"seed\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"seconds\":%.2f,\"failed\":%s,\"reproduced\":%s",
          json(id).c_str(), json(prop->rule).c_str(), (unsigned long long)seed, (unsigned long long)sh->evals,
          (unsigned long long)sh->nontrivial, now() - t0, failed ? "true" : "false", reproduced ? "true" : "false");
  fprintf(f, ",\"tags\":{");
  for (int i = 0; i < MAX_TAGS && sh->tags[i].name[0]; i++)
    fprintf(f, "%s%s:%llu", i ? "," : "", json(sh->tags[i].name).c_str(), (unsigned long long)sh->tags[i].count);
  fprintf(f, "},\"samples\":[%s]", samples.c_str());
  if (failed)
    fprintf(f, ",\"message\":%s,\"case\":%llu,\"choices\":%s,\"desc\":%s", json(message).c_str(),
            (unsigned long long)sh->case_index, list(c).c_str(), json(desc).c_str());
  if (history)
    fprintf(f, ",\"range\":[%llu,%llu]", (unsigned long long)range_from, (unsigned long long)range_to);
  fprintf(f, "}\n");
  fclose(f);
  return 0;
}

#ifndef FUZZING
int main(int argc, char **argv) { return harness_main(argc, argv); }
#endif

// Programs keep their registrations until they exit
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0"; }
