#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#define NOCOV __attribute__((no_sanitize_coverage))

namespace pbt {

static const int EXIT_FAIL = 66;
static const size_t MAXC = 1 << 15;   // choices per case
static const size_t MAXL = 128;       // labels
static const size_t MAXMSG = 1 << 12;
static const size_t MAXTEXT = 1 << 16;
static const size_t NSAMP = 6;
static const size_t COV = 1 << 14;

struct Label {
  char name[64];
  uint64_t n;
};
struct Shm { // one per worker
  volatile uint64_t n;       // choices recorded in the current case
  uint64_t c[MAXC];
  volatile uint64_t done;    // cases completed
  volatile uint64_t cur;     // index of the current case
  volatile uint64_t nontriv; // non-trivial cases
  uint64_t nlabels;
  Label labels[MAXL];
  uint64_t ncounts;
  Label counts[MAXL];
  char msg[MAXMSG];
  uint64_t tried; // shrinking: index of the candidate being run
  char text[MAXTEXT];
  volatile uint64_t ntext;
  uint64_t nsamp;
  uint64_t sampn[NSAMP];
  uint64_t corpus;
  uint64_t hashcap, nhash;
  // followed by: samples [NSAMP][MAXC], hash table [hashcap]
};

static Shm *S;
static uint64_t *samp(Shm *s, size_t i) { return (uint64_t *)(s + 1) + i * MAXC; }
static uint64_t *htab(Shm *s) { return (uint64_t *)(s + 1) + NSAMP * MAXC; }

static Shm *new_shm(uint64_t hashcap) {
  size_t bytes = sizeof(Shm) + 8 * (NSAMP * MAXC + hashcap);
  void *p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  Shm *s = (Shm *)p;
  s->hashcap = hashcap;
  return s;
}

NOCOV uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ---- the current case -----------------------------------------------------
static uint64_t rng;
static const uint64_t *in_c;
static size_t in_n, in_pos;
static bool tail_random;
static bool case_nontrivial;
static uint64_t case_labels[MAXL / 64 + 1];
static uint64_t case_no;
bool verbose = false;
long fuel = 1l << 60;
long fuel_per_case = 1l << 60;

NOCOV static uint64_t draw() {
  rng += 0x9e3779b97f4a7c15ull;
  uint64_t z = rng;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
NOCOV static uint64_t choice(uint64_t n) { // n == 0: full range
  uint64_t v;
  if (in_pos < in_n) {
    v = in_c[in_pos++];
    if (n)
      v = v < n ? v : v % n;
  } else if (tail_random) {
    v = draw();
    if (n)
      v = (uint64_t)(((unsigned __int128)v * n) >> 64);
  } else {
    v = 0;
  }
  uint64_t k = S->n;
  if (k < MAXC) {
    S->c[k] = v;
    S->n = k + 1;
    return v;
  }
  return 0;
}
uint64_t Src::below(uint64_t n) { return n == 1 ? 0 : choice(n); }
uint64_t Src::bits() { return choice(0); }
size_t Src::weighted(std::initializer_list<unsigned> w) {
  unsigned sum = 0;
  for (unsigned x : w)
    sum += x;
  uint64_t v = below(sum);
  size_t i = 0;
  for (unsigned x : w) {
    if (v < x)
      return i;
    v -= x;
    i++;
  }
  return 0;
}

void say(const char *fmt, ...) {
  if (!verbose)
    return;
  va_list a;
  va_start(a, fmt);
  size_t k = S->ntext;
  if (k + 400 < MAXTEXT) {
    int m = vsnprintf(S->text + k, 399, fmt, a);
    if (m > 398)
      m = 398;
    S->ntext = k + (m > 0 ? m : 0);
  }
  va_end(a);
}

void fail(const char *fmt, ...) {
  va_list a;
  va_start(a, fmt);
  vsnprintf(S->msg, MAXMSG, fmt, a);
  va_end(a);
  _exit(EXIT_FAIL);
}

static size_t slot(Label *t, uint64_t &n, const char *name) {
  static std::map<const char *, size_t> cache[2];
  auto &m = cache[t == S->labels];
  auto it = m.find(name);
  if (it != m.end())
    return it->second;
  size_t i = 0;
  for (; i < n; i++)
    if (!strncmp(t[i].name, name, sizeof t[i].name - 1))
      break;
  if (i == n && n < MAXL) {
    strncpy(t[i].name, name, sizeof t[i].name - 1);
    n++;
  }
  return m[name] = std::min(i, MAXL - 1);
}
void label(const char *name) {
  size_t i = slot(S->labels, S->nlabels, name);
  if (case_labels[i / 64] >> (i % 64) & 1)
    return;
  case_labels[i / 64] |= 1ull << (i % 64);
  S->labels[i].n++;
  SAY("[%s] ", name);
}
void count(const char *name, uint64_t k) {
  S->counts[slot(S->counts, S->ncounts, name)].n += k;
}
void nontrivial() { case_nontrivial = true; }
void discard_note(const char *why) { label(why); }

// ---- coverage and fuel ------------------------------------------------------
static uint8_t covmap[COV], covseen[COV];
static uint16_t covtouched[COV];
static size_t ncov;
static uintptr_t covprev;
static bool covnew;
extern "C" NOCOV __attribute__((no_sanitize("address", "undefined"))) void
__sanitizer_cov_trace_pc() {
  if (--fuel < 0) {
    fuel = 1l << 60;
    fail("an operation does not terminate: more than %ld basic blocks executed "
         "in one case",
         fuel_per_case);
  }
  uintptr_t pc =
      (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__sanitizer_cov_trace_pc;
  pc = (pc ^ (pc >> 7)) * 0x9e3779b1u;
  size_t i = (size_t)((pc ^ covprev) >> 8) & (COV - 1);
  covprev = pc >> 1;
  if (!covmap[i]++)
    covtouched[ncov++] = (uint16_t)i;
  else if (!covmap[i])
    covmap[i] = 255;
}
NOCOV static bool cov_harvest() { // did this case reach something new?
  bool fresh = false;
  for (size_t k = 0; k < ncov; k++) {
    size_t i = covtouched[k];
    uint8_t h = covmap[i], b = 0;
    while (h) {
      b++;
      h >>= 1;
    }
    uint8_t bit = 1u << (b > 7 ? 7 : b);
    if (!(covseen[i] & bit)) {
      covseen[i] |= bit;
      fresh = true;
    }
    covmap[i] = 0;
  }
  ncov = 0;
  covprev = 0;
  return fresh;
}

// While shrinking a case that does not terminate, smaller ones are given up
// sooner; what is reported has exhausted the suite's own limit three times.
static long fuel_limit;
// Sequential suites: giving the processor to nobody is no progress either.
extern "C" __attribute__((weak)) int sched_yield() {
  fuel -= 2000;
  return 0;
}
static long case_fuel;
static void run_case(const uint64_t *c, size_t n, bool random_tail,
                     uint64_t seed) {
  in_c = c;
  in_n = n;
  in_pos = 0;
  tail_random = random_tail;
  rng = seed;
  S->n = 0;
  case_nontrivial = false;
  memset(case_labels, 0, sizeof case_labels);
  fuel_per_case = fuel = fuel_limit ? fuel_limit : suite.fuel;
  Src g;
  suite.run(g);
  case_fuel = fuel_per_case - fuel;
  fuel = 1l << 60;
}

NOCOV static bool hash_add(Shm *s, uint64_t h) {
  if (!h)
    h = 1;
  uint64_t *t = htab(s);
  if (s->nhash * 4 > s->hashcap * 3)
    return false;
  for (uint64_t i = h % s->hashcap;; i = (i + 1) % s->hashcap) {
    if (t[i] == h)
      return false;
    if (!t[i]) {
      t[i] = h;
      s->nhash++;
      return true;
    }
  }
}

// ---- a worker ---------------------------------------------------------------
static void worker(uint64_t seed, unsigned w, uint64_t count, uint64_t stop_at) {
  std::vector<std::vector<uint64_t>> corpus;
  std::vector<uint64_t> buf;
  uint64_t base = mix(seed * 1000003 + w);
  uint64_t sample_next = 0;
  double fuel_avg = 0;
  for (uint64_t i = 0; i < count && i <= stop_at; i++) {
    case_no = i;
    S->cur = i;
    uint64_t cs = mix(base ^ mix(i));
    bool mutate = corpus.size() > 4 && mix(cs) % 3 == 0;
    if (mutate) {
      uint64_t r = mix(cs + 1);
      auto next = [&r]() { return r = mix(r); };
      buf = corpus[next() % corpus.size()];
      unsigned k = 1 + next() % 4;
      while (k--) {
        switch (next() % 5) {
        case 0:
          if (!buf.empty())
            buf[next() % buf.size()] = next() >> (next() % 64);
          break;
        case 1:
          if (!buf.empty()) {
            size_t a = next() % buf.size(), l = 1 + next() % 8;
            buf.erase(buf.begin() + a,
                      buf.begin() + std::min(buf.size(), a + l));
          }
          break;
        case 2:
          if (!buf.empty() && buf.size() < 2000) {
            size_t a = next() % buf.size(),
                   l = std::min<size_t>(buf.size() - a, 1 + next() % 16);
            std::vector<uint64_t> ch(buf.begin() + a, buf.begin() + a + l);
            buf.insert(buf.begin() + next() % (buf.size() + 1), ch.begin(),
                       ch.end());
          }
          break;
        case 3: {
          auto &o = corpus[next() % corpus.size()];
          if (!o.empty() && !buf.empty()) {
            buf.resize(next() % buf.size());
            size_t a = next() % o.size();
            buf.insert(buf.end(), o.begin() + a, o.end());
          }
          break;
        }
        case 4:
          if (!buf.empty())
            buf.resize(next() % buf.size());
          break;
        }
      }
      run_case(buf.data(), buf.size(), true, cs);
    } else {
      run_case(nullptr, 0, true, cs);
    }
    bool fresh = cov_harvest();
    fuel_avg += ((double)case_fuel - fuel_avg) / (i < 1000 ? i + 1 : 1000);
    // a costly case is not worth repeating
    if (fresh && corpus.size() < 2000 && (i < 50 || (double)case_fuel < 8 * fuel_avg)) {
      corpus.push_back(std::vector<uint64_t>(S->c, S->c + S->n));
      S->corpus = corpus.size();
    }
    S->done = i + 1;
    if (case_nontrivial) {
      S->nontriv = S->nontriv + 1;
      uint64_t h = 7;
      for (uint64_t k = 0; k < S->n; k++)
        h = mix(h ^ S->c[k]);
      bool d = hash_add(S, h);
      if (d && i >= sample_next && S->nsamp < NSAMP && S->n < 400) {
        memcpy(samp(S, S->nsamp), S->c, 8 * S->n);
        S->sampn[S->nsamp++] = S->n;
        sample_next = i * 7 + 20;
      }
    }
  }
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static int out_fd(bool silence) {
  (void)silence;
  char name[] = "/tmp/pbt-err-XXXXXX";
  int fd = mkstemp(name);
  if (fd >= 0)
    unlink(name);
  return fd;
}
static std::string slurp_fd(int fd) {
  std::string r;
  char b[4096];
  lseek(fd, 0, SEEK_SET);
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0 && r.size() < 200000)
    r.append(b, k);
  return r;
}
static std::string crash_summary(const std::string &err, int st) {
  // the first sanitizer line, without addresses
  std::string line;
  size_t p = err.find("ERROR: AddressSanitizer");
  if (p == std::string::npos)
    p = err.find("runtime error:");
  if (p != std::string::npos) {
    line = err.substr(p, err.find('\n', p) - p);
    size_t q = err.find("/src/", p);
    if (q != std::string::npos) {
      size_t a = err.rfind('\n', q), b = err.find('\n', q);
      line += " |" + err.substr(a + 1, b - a - 1);
    }
  } else if (!err.empty()) {
    line = err.substr(0, std::min<size_t>(300, err.size()));
  }
  char x[64];
  if (WIFSIGNALED(st))
    snprintf(x, sizeof x, "crash (signal %d) ", WTERMSIG(st));
  else
    snprintf(x, sizeof x, "crash (exit %d) ", WEXITSTATUS(st));
  return x + line;
}

struct Child {
  pid_t pid;
  int err;
};
static void child_setup(int err) {
  if (err >= 0) {
    dup2(err, 2);
    if (suite.silence_stdout) {
      int z = open("/dev/null", O_WRONLY);
      dup2(z, 1);
    } else
      dup2(err, 1);
  }
  rlimit z = {0, 0};
  setrlimit(RLIMIT_CORE, &z);
}

// Waits with a backstop; returns false if it had to be killed.
static bool wait_child(pid_t p, int *st, double limit) {
  double t0 = now();
  long ns = 100000;
  while (true) {
    pid_t r = waitpid(p, st, WNOHANG);
    if (r == p)
      return true;
    if (now() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, st, 0);
      return false;
    }
    timespec d = {0, ns};
    nanosleep(&d, nullptr);
    if (ns < 5000000)
      ns *= 2;
  }
}

typedef std::vector<uint64_t> Seq;

// Runs the candidates in order in one child until one fails.  Returns the index
// of the failing one, or -1.
static int first_failing(Shm *s, const std::vector<Seq> &cand, std::string &msg,
                         Seq *norm, bool verb, bool &hung) {
  hung = false;
  int err = out_fd(false);
  s->msg[0] = 0;
  s->tried = 0;
  s->ntext = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    S = s;
    verbose = verb;
    child_setup(err);
    for (size_t i = 0; i < cand.size(); i++) {
      s->tried = i;
      s->ntext = 0;
      run_case(cand[i].data(), cand[i].size(), false, 0);
      cov_harvest();
    }
    _exit(0);
  }
  int st;
  bool ok = wait_child(p, &st, 60);
  int res = -1;
  if (!ok) {
    hung = true;
  } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    res = (int)s->tried;
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL)
      msg = s->msg;
    else
      msg = crash_summary(slurp_fd(err), st);
    if (norm)
      norm->assign(s->c, s->c + s->n);
  }
  close(err);
  return res;
}

static bool smaller(const Seq &a, const Seq &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}

static double shrink_time = 40;
static Seq shrink(Shm *s, Seq best, std::string &msg, unsigned &trials) {
  double t0 = now();
  bool hung;
  if (msg.find("does not terminate") != std::string::npos)
    fuel_limit = std::min(suite.fuel, std::max(suite.fuel / 40, 2000000l));
  auto attempt = [&](std::vector<Seq> &cand) -> bool {
    // keep only real improvements
    cand.erase(std::remove_if(cand.begin(), cand.end(),
                              [&](const Seq &x) { return !smaller(x, best); }),
               cand.end());
    for (size_t off = 0; off < cand.size(); off += 64) {
      if (trials > 60000 || now() - t0 > shrink_time)
        return false;
      std::vector<Seq> part(cand.begin() + off,
                            cand.begin() + std::min(cand.size(), off + 64));
      std::string m;
      Seq norm;
      int k = first_failing(s, part, m, &norm, false, hung);
      trials += k >= 0 ? k + 1 : part.size();
      if (k >= 0) {
        best = smaller(norm, part[k]) ? norm : part[k];
        msg = m;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && now() - t0 < shrink_time && trials < 60000) {
    progress = false;
    // delete chunks, large to small
    for (size_t l = std::max<size_t>(1, best.size() / 2); l >= 1; l /= 2) {
      bool again = true;
      while (again) {
        std::vector<Seq> cand;
        for (size_t a = 0; a + l <= best.size(); a += std::max<size_t>(1, l / 2)) {
          Seq x(best);
          x.erase(x.begin() + a, x.begin() + a + l);
          cand.push_back(x);
          // a deletion often needs a count before it lowered by one
          for (size_t d = 1; d <= 2 && d <= a && l <= 8; d++)
            if (best[a - d] > 0) {
              Seq y(x);
              y[a - d]--;
              cand.push_back(y);
            }
        }
        again = attempt(cand);
        progress |= again;
      }
      if (l == 1)
        break;
    }
    // lower values
    for (size_t i = 0; i < best.size(); i++) {
      bool again = true;
      while (again && i < best.size() && best[i]) {
        std::vector<Seq> cand;
        uint64_t v = best[i];
        std::set<uint64_t> vs = {0, 1, v / 2, v - 1};
        for (int sft = 3; sft < 64; sft += 6)
          if (v >> sft)
            vs.insert(v - (v >> sft));
        for (uint64_t u : vs)
          if (u < v) {
            Seq x(best);
            x[i] = u;
            cand.push_back(x);
          }
        again = attempt(cand);
        progress |= again;
      }
    }
    // trailing zeros are implied
    Seq x(best);
    while (!x.empty() && x.back() == 0)
      x.pop_back();
    if (x.size() < best.size()) {
      std::vector<Seq> cand = {x};
      attempt(cand);
    }
  }
  fuel_limit = 0;
  return best;
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      (r += '\\') += c;
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}

static std::string describe(Shm *s, const Seq &c, std::string *msg) {
  bool hung;
  std::vector<Seq> cand = {c};
  std::string m;
  first_failing(s, cand, m, nullptr, true, hung);
  if (msg)
    *msg = m;
  return std::string(s->text, s->ntext);
}

} // namespace pbt

using namespace pbt;

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=67:abort_on_error=0:handle_abort=0:"
         "allocator_may_return_null=1:print_legend=0:detect_stack_use_after_"
         "return=0:symbolize=1";
}
extern "C" const char *__ubsan_default_options() {
  return "exitcode=67:print_stacktrace=0";
}

static std::string getopt_s(int argc, char **argv, const char *k,
                            const char *dflt) {
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], k))
      return argv[i + 1];
  return dflt;
}

static bool load(const std::string &path, Seq &c, std::string &rerun) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f)
    return false;
  char line[1 << 16];
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "rerun ", 6))
      rerun = line + 6;
    if (!strncmp(line, "choices", 7)) {
      unsigned long long v;
      while (fscanf(f, "%llu", &v) == 1)
        c.push_back(v);
      break;
    }
  }
  fclose(f);
  return true;
}

int main(int argc, char **argv) {
  uint64_t seed = strtoull(getopt_s(argc, argv, "--seed", "1").c_str(), 0, 10);
  bool thorough = getopt_s(argc, argv, "--tier", "quick") == "thorough";
  double scale = atof(getopt_s(argc, argv, "--scale", "1").c_str());
  unsigned W = atoi(getopt_s(argc, argv, "--workers", "8").c_str());
  std::string replay = getopt_s(argc, argv, "--replay", "");
  std::string outp = getopt_s(argc, argv, "--out", "");
  std::string rdir = getopt_s(argc, argv, "--replay-dir", ".");
  uint64_t total = getopt_s(argc, argv, "--cases", "") != ""
                       ? strtoull(getopt_s(argc, argv, "--cases", "").c_str(), 0, 10)
                       : (uint64_t)((thorough ? suite.thorough : suite.quick) * scale);
  setvbuf(stdout, nullptr, _IOLBF, 0);

  // Runs worker w alone in a fresh child up to case `upto`; -> message or "".
  auto rerun_worker = [&](uint64_t sd, unsigned w, uint64_t n,
                          uint64_t upto) -> std::string {
    Shm *s = new_shm(1 << 16);
    int err = out_fd(false);
    pid_t p = fork();
    if (p == 0) {
      S = s;
      child_setup(err);
      worker(sd, w, n, upto);
      _exit(0);
    }
    int st;
    if (!wait_child(p, &st, 300))
      return "";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      return "";
    std::string m = WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL
                        ? s->msg
                        : crash_summary(slurp_fd(err), st);
    return s->cur == upto ? m : "";
  };

  if (!replay.empty()) {
    Seq c;
    std::string rr, m;
    if (!load(replay, c, rr)) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 2;
    }
    if (!rr.empty()) {
      unsigned long long sd, w, n, u;
      if (sscanf(rr.c_str(), "%llu %llu %llu %llu", &sd, &w, &n, &u) == 4)
        m = rerun_worker(sd, (unsigned)w, n, u);
      if (!m.empty()) {
        printf("FAILED: %s\n", m.c_str());
        return 1;
      }
      printf("passed\n");
      return 0;
    }
    Shm *s = new_shm(1 << 10);
    std::string text = describe(s, c, &m);
    printf("%s\n", text.c_str());
    if (m.empty()) {
      bool h;
      first_failing(s, {c}, m, nullptr, false, h);
    }
    if (!m.empty()) {
      printf("FAILED: %s\n", m.c_str());
      return 1;
    }
    printf("passed\n");
    return 0;
  }

  double t0 = now();
  uint64_t per = (total + W - 1) / W;
  uint64_t hashcap = per * 2 + 1024;
  if (hashcap > (8u << 20))
    hashcap = 8u << 20;
  std::vector<Shm *> shm(W);
  std::vector<Child> ch(W);
  for (unsigned w = 0; w < W; w++) {
    shm[w] = new_shm(hashcap);
    ch[w].err = out_fd(false);
    fflush(stdout);
    ch[w].pid = fork();
    if (ch[w].pid == 0) {
      S = shm[w];
      child_setup(ch[w].err);
      worker(seed, w, per, ~0ull);
      _exit(0);
    }
  }
  std::vector<int> status(W, -1);
  std::vector<uint64_t> last(W, 0);
  std::vector<double> when(W, t0);
  std::vector<bool> hung(W, false);
  unsigned left = W;
  bool cut = false;
  while (left) {
    for (unsigned w = 0; w < W; w++) {
      if (status[w] != -1)
        continue;
      int st;
      if (waitpid(ch[w].pid, &st, WNOHANG) == ch[w].pid) {
        status[w] = st;
        left--;
        continue;
      }
      if (shm[w]->done != last[w]) {
        last[w] = shm[w]->done;
        when[w] = now();
      } else if (now() - when[w] > 180) {
        kill(ch[w].pid, SIGKILL);
        waitpid(ch[w].pid, &st, 0);
        status[w] = 0;
        hung[w] = true;
        left--;
      }
    }
    // once one worker has failed give the others a moment, then stop them
    bool failed = false;
    for (unsigned w = 0; w < W; w++)
      failed |= status[w] > 0;
    if (failed && left && !cut) {
      timespec d = {0, 300000000};
      nanosleep(&d, nullptr);
      cut = true;
      for (unsigned w = 0; w < W; w++)
        if (status[w] == -1) {
          int st;
          if (waitpid(ch[w].pid, &st, WNOHANG) == ch[w].pid)
            status[w] = st;
          else {
            kill(ch[w].pid, SIGKILL);
            waitpid(ch[w].pid, &st, 0);
            status[w] = 0;
          }
          left--;
        }
    }
    timespec d = {0, 5000000};
    nanosleep(&d, nullptr);
  }
  uint64_t evals = 0, nontriv = 0, corpus = 0;
  std::map<std::string, uint64_t> labels, counts;
  for (unsigned w = 0; w < W; w++) {
    evals += shm[w]->done;
    nontriv += shm[w]->nontriv;
    corpus += shm[w]->corpus;
    for (size_t i = 0; i < shm[w]->nlabels; i++)
      labels[shm[w]->labels[i].name] += shm[w]->labels[i].n;
    for (size_t i = 0; i < shm[w]->ncounts; i++)
      counts[shm[w]->counts[i].name] += shm[w]->counts[i].n;
  }
  std::vector<uint64_t> all;
  for (unsigned w = 0; w < W; w++)
    for (uint64_t i = 0; i < hashcap; i++)
      if (htab(shm[w])[i])
        all.push_back(htab(shm[w])[i]);
  std::sort(all.begin(), all.end());
  uint64_t distinct = std::unique(all.begin(), all.end()) - all.begin();

  int rc = 0;
  std::string vmsg, vreplay, vtext;
  for (unsigned w = 0; w < W; w++)
    if (hung[w]) {
      printf("INCONCLUSIVE worker %u made no progress in case %llu\n", w,
             (unsigned long long)shm[w]->cur);
      rc = 2;
    }
  int fw = -1;
  for (unsigned w = 0; w < W; w++)
    if (status[w] > 0 && (fw < 0 || shm[w]->n < shm[fw]->n))
      fw = w;
  Shm *ts = new_shm(1 << 10);
  if (fw >= 0) {
    int st = status[fw];
    std::string m = WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL
                        ? shm[fw]->msg
                        : crash_summary(slurp_fd(ch[fw].err), st);
    Seq c(shm[fw]->c, shm[fw]->c + shm[fw]->n);
    auto thrice = [&](const Seq &x) {
      bool h;
      for (int k = 0; k < 3; k++) {
        std::vector<Seq> cand = {x};
        std::string mm;
        if (first_failing(ts, cand, mm, nullptr, false, h) != 0)
          return false;
      }
      return true;
    };
    char name[160];
    unsigned trials = 0;
    if (thrice(c)) {
      std::string ms = m;
      Seq b = shrink(ts, c, ms, trials);
      if (!thrice(b))
        b = c;
      vtext = describe(ts, b, &vmsg);
      if (vmsg.empty()) // describing it changed what happens
        vmsg = ms;
      uint64_t h = 3;
      for (uint64_t v : b)
        h = mix(h ^ v);
      snprintf(name, sizeof name, "%s-%s-%016llx.replay", suite.id, suite.name,
               (unsigned long long)h);
      vreplay = rdir + "/" + name;
      if (FILE *f = fopen(vreplay.c_str(), "w")) {
        fprintf(f, "property %s\nsuite %s\nseed %llu\n", suite.id, suite.name,
                (unsigned long long)seed);
        std::string one = vmsg;
        for (char &x : one)
          if (x == '\n')
            x = ' ';
        fprintf(f, "failure %s\n", one.c_str());
        std::string t = vtext;
        size_t p = 0;
        while (p < t.size()) {
          size_t e = t.find('\n', p);
          if (e == std::string::npos)
            e = t.size();
          fprintf(f, "# %s\n", t.substr(p, e - p).c_str());
          p = e + 1;
        }
        fprintf(f, "choices %zu\n", b.size());
        for (uint64_t v : b)
          fprintf(f, "%llu ", (unsigned long long)v);
        fprintf(f, "\n");
        fclose(f);
      }
      rc = 1;
    } else {
      // fails only after the cases before it: replay the whole worker
      uint64_t u = shm[fw]->cur;
      bool all3 = true;
      for (int k = 0; k < 3 && all3; k++) {
        std::string mm = rerun_worker(seed, fw, per, u);
        all3 = !mm.empty();
        if (all3)
          vmsg = mm + " (only after the preceding cases of this worker: state "
                      "survives from case to case)";
      }
      if (all3) {
        snprintf(name, sizeof name, "%s-%s-rerun-%llu-%d-%llu.replay", suite.id,
                 suite.name, (unsigned long long)seed, fw,
                 (unsigned long long)u);
        vreplay = rdir + "/" + name;
        if (FILE *f = fopen(vreplay.c_str(), "w")) {
          fprintf(f, "property %s\nsuite %s\nfailure %s\nrerun %llu %d %llu %llu\n",
                  suite.id, suite.name, vmsg.c_str(), (unsigned long long)seed,
                  fw, (unsigned long long)per, (unsigned long long)u);
          fclose(f);
        }
        rc = 1;
      } else {
        printf("INCONCLUSIVE a failure did not repeat: %s\n", m.c_str());
        rc = 2;
      }
    }
    if (rc == 1)
      printf("FAILURE %s\n%s\n(%u shrinking trials)\nREPLAY %s\n", vmsg.c_str(),
             vtext.c_str(), trials, vreplay.c_str());
  }
  std::vector<std::string> samples;
  for (unsigned w = 0; w < W && samples.size() < 6; w++)
    for (size_t i = 0; i < shm[w]->nsamp && samples.size() < 6 && i < 2; i++) {
      size_t k = i ? shm[w]->nsamp - 1 : 0;
      Seq c(samp(shm[w], k), samp(shm[w], k) + shm[w]->sampn[k]);
      std::string t = describe(ts, c, nullptr);
      if (t.size() > 1500)
        t = t.substr(0, 1500) + " ...";
      samples.push_back(t);
    }
  double wall = now() - t0;
  printf("%s/%s: %llu cases, %llu non-trivial, %llu distinct non-trivial, corpus "
         "%llu, %.1f s\n",
         suite.id, suite.name, (unsigned long long)evals,
         (unsigned long long)nontriv, (unsigned long long)distinct,
         (unsigned long long)corpus, wall);
  if (getopt_s(argc, argv, "--stats", "") != "")
    for (auto &l : labels)
      printf("  %-50s %10llu  %5.1f%%\n", l.first.c_str(),
             (unsigned long long)l.second, 100.0 * l.second / (evals ? evals : 1));
  if (!outp.empty()) {
    FILE *f = fopen(outp.c_str(), "w");
    if (!f)
      return 2;
    fprintf(f,
            "{\"suite\":%s,\"rule\":%s,\"evaluations\":%llu,\"nontrivial\":%llu,"
            "\"distinct_nontrivial\":%llu,\"corpus\":%llu,\"wall\":%.3f,\"rc\":%d,"
            "\"message\":%s,\"replay\":%s,\"labels\":{",
            jstr(suite.name).c_str(), jstr(suite.rule).c_str(),
            (unsigned long long)evals, (unsigned long long)nontriv,
            (unsigned long long)distinct, (unsigned long long)corpus, wall, rc,
            jstr(vmsg).c_str(), jstr(vreplay).c_str());
    const char *sep = "";
    for (auto &l : labels) {
      fprintf(f, "%s%s:%llu", sep, jstr(l.first).c_str(),
              (unsigned long long)l.second);
      sep = ",";
    }
    fprintf(f, "},\"counts\":{");
    sep = "";
    for (auto &l : counts) {
      fprintf(f, "%s%s:%llu", sep, jstr(l.first).c_str(),
              (unsigned long long)l.second);
      sep = ",";
    }
    fprintf(f, "},\"samples\":[");
    sep = "";
    for (auto &s : samples) {
      fprintf(f, "%s%s", sep, jstr(s).c_str());
      sep = ",";
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return rc;
}
