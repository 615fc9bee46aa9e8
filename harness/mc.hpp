// Bounded exhaustive explorer used by every harness in this directory.
//
// A harness is a deterministic enumeration.  It is divided into *units* (X.unit()), which are handed out
// dynamically to forked worker processes; inside a unit every explored execution is a *case* (MC_CASE).  A case is
// identified by (unit, local index), so any case can be replayed on its own.  Workers that die (sanitizer report,
// signal) or hang are turned into a failure of the case they were executing; that case is skipped and the unit is
// explored again.  All counters are measured, and committed when a unit completes.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char *s = nullptr;
  int n = vasprintf(&s, f, ap);
  va_end(ap);
  std::string r(n >= 0 ? s : "");
  free(s);
  return r;
}

template <class V>
std::string join(const V &v) {
  std::ostringstream o;
  o << "[";
  bool first = true;
  for (const auto &e : v) {
    if (!first)
      o << ",";
    first = false;
    o << +e;
  }
  o << "]";
  return o.str();
}

inline std::string quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7f) {
      r += fmt("\\x%02x", c);
    } else {
      r += c;
    }
  }
  return r + "\"";
}

inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7f) {
      r += fmt("\\u%04x", c);
    } else {
      r += c;
    }
  }
  return r + "\"";
}

inline uint64_t h64(const void *p, size_t n, uint64_t seed = 1469598103934665603ull) {
  const unsigned char *b = static_cast<const unsigned char *>(p);
  uint64_t h = seed;
  for (size_t i = 0; i < n; ++i) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t h64(const std::string &s) { return h64(s.data(), s.size()); }

const int MAXW = 16;
const int MAXSKIP = 4096;
const size_t MAXUNIT = 1u << 22;

struct WorkerShm {
  std::atomic<int64_t> unit;
  std::atomic<int64_t> local;
  std::atomic<uint64_t> beat;
  std::atomic<int> section;
};
const int MAXSEC = 64;
struct Shm {
  WorkerShm w[MAXW];
  std::atomic<uint64_t> cases[MAXSEC];
  std::atomic<uint64_t> transitions[MAXSEC];
  std::atomic<uint64_t> units;
  std::atomic<uint64_t> traces;
  std::atomic<uint64_t> overflow; // results lost to a cap
  std::atomic<int> stop;
  std::atomic<int> nskip;
  int64_t skip_u[MAXSKIP], skip_l[MAXSKIP];
  std::atomic<unsigned char> claimed[MAXUNIT];
};

struct Failure {
  int64_t unit, local;
  std::string section, cls, desc, detail;
};

// Describing a case must not cost anything unless somebody asks.
struct DescRef {
  const void *obj;
  std::string (*call)(const void *);
};
template <class L>
DescRef ref(const L &l) {
  return DescRef{&l, [](const void *o) { return (*static_cast<const L *>(o))(); }};
}

class X {
public:
  std::string tier = "quick";
  bool thorough() const { return tier == "thorough"; }

  // --- enumeration ---
  // Starts the next unit; true if this process explores it.
  bool unit() {
    commit();
    ++m_unit;
    m_local = -1;
    m_active = false;
    if (m_unit >= (int64_t)MAXUNIT) {
      m_shm->overflow++;
      return false;
    }
    if (m_only_unit >= 0) {
      m_active = m_unit == m_only_unit;
    } else if (m_shm->stop.load() == 0) {
      m_active = m_shm->claimed[m_unit].exchange(1) == 0;
    }
    if (m_active)
      me().unit.store(m_unit);
    return m_active;
  }
  // Starts the next case of the unit; false if it must be skipped (it crashed before).
  bool next(DescRef d) {
    ++m_local;
    m_desc = d;
    me().local.store(m_local, std::memory_order_relaxed);
    me().beat.fetch_add(1, std::memory_order_relaxed);
    int ns = m_shm->nskip.load(std::memory_order_relaxed);
    if (m_only_unit < 0 || (!m_only_flat && m_local != m_only_local)) {
      // cases that end the process are not executed again, except to replay them
      for (int i = 0; i < ns; ++i)
        if (m_shm->skip_u[i] == m_unit && m_shm->skip_l[i] == m_local)
          return false;
    }
    if (m_only_unit < 0) {
    } else if (m_local == m_only_local) {
      if (m_verbose) {
        fprintf(stderr, "REPLAY section=%s case: %s\n", m_section.c_str(), desc().c_str());
        fflush(stderr);
      }
      if (m_describe_to) {
        FILE *f = fopen(m_describe_to, "w");
        std::string s = m_section + "\n" + desc();
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
      }
    } else if (m_only_flat) {
      return false;
    }
    ++m_cases;
    ++m_sec_cases_total;
    if (m_samples.size() < 3 && (m_cases == 1 || (m_cases & (m_cases - 1)) == 0))
      m_samples.push_back(desc());
    return true;
  }
  std::string desc() const { return m_desc.obj ? m_desc.call(m_desc.obj) : std::string("?"); }
  // A long running case calls this so that it is not taken for a hang.
  void tick() { me().beat.fetch_add(1, std::memory_order_relaxed); }

  // Flat units: each case is independent of the others of its unit, so a replay executes only the case itself.
  void section(const char *name, bool flat = true) {
    commit();
    m_section = name;
    m_flat = flat;
    m_only_flat = flat && m_only_unit >= 0;
    int id = -1;
    for (size_t i = 0; i < m_sections.size(); ++i)
      if (m_sections[i] == name)
        id = (int)i;
    if (id < 0) {
      m_sections.push_back(name);
      id = (int)m_sections.size() - 1;
    }
    m_secid = id < MAXSEC ? id : MAXSEC - 1;
    me().section.store(m_secid);
  }

  // --- measurement ---
  void trans(uint64_t n = 1) { m_trans += n; }
  void state(uint64_t h) {
    m_states.push_back(h);
    if (m_states.size() >= 8192)
      flush_states();
  }
  void state(const std::string &s) { state(h64(s)); }
  // an observed outcome (to show the exploration is not vacuous)
  void outcome(const std::string &s) {
    if (m_outcomes.size() < 512)
      m_outcomes.insert(s);
  }

  // --- verdicts ---
  void fail(const std::string &cls, const std::string &detail) {
    if (m_only_unit >= 0 && m_local != m_only_local)
      return;
    FILE *f = m_failfile;
    std::string l = fmt("%lld\t%lld\t", (long long)m_unit, (long long)m_local) + esc(m_section) + "\t" + esc(cls) +
                    "\t" + esc(desc()) + "\t" + esc(detail) + "\n";
    if (++m_nfail < 200000)
      fwrite(l.data(), 1, l.size(), f);
    else
      m_shm->overflow++;
    fflush(f);
    if (m_verbose)
      fprintf(stderr, "FAIL %s: %s\n", cls.c_str(), detail.c_str());
  }
  bool check(bool ok, const char *cls, const std::string &detail) {
    if (!ok)
      fail(cls, detail);
    return ok;
  }

  static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '\t')
        r += "\\t";
      else if (c == '\n')
        r += "\\n";
      else if (c < 0x20 || c >= 0x7f)
        r += fmt("\\x%02x", c);
      else
        r += c;
    }
    if (r.size() > 2000)
      r.resize(2000);
    return r;
  }

  // --- internals ---
  WorkerShm &me() { return m_shm->w[m_w]; }
  void flush_states() {
    if (m_statefile && !m_states.empty())
      fwrite(m_states.data(), 8, m_states.size(), m_statefile);
    m_states.clear();
  }
  void commit() {
    if (m_active && m_only_unit < 0) {
      m_shm->cases[m_secid] += m_cases;
      m_shm->transitions[m_secid] += m_trans;
      m_shm->units++;
      flush_states();
      if (m_sampfile) {
        for (auto &s : m_samples) {
          std::string l = esc(m_section) + "\t" + esc(s) + "\n";
          if (m_written_samples[m_section]++ < 4)
            fwrite(l.data(), 1, l.size(), m_sampfile);
        }
        for (auto &o : m_outcomes) {
          if (m_written_outcomes.size() < 20000 && m_written_outcomes.insert(m_section + "\t" + o).second) {
            std::string l = "O\t" + esc(m_section) + "\t" + esc(o) + "\n";
            fwrite(l.data(), 1, l.size(), m_sampfile);
          }
        }
        fflush(m_sampfile);
      }
    }
    m_active = false;
    m_cases = m_trans = 0;
    m_samples.clear();
    m_outcomes.clear();
  }

  Shm *m_shm = nullptr;
  int m_w = 0;
  int64_t m_unit = -1, m_local = -1, m_only_unit = -1, m_only_local = -1;
  bool m_only_flat = false, m_flat = true;
  bool m_active = false, m_verbose = false;
  const char *m_describe_to = nullptr;
  uint64_t m_cases = 0, m_trans = 0, m_nfail = 0, m_sec_cases_total = 0;
  std::string m_section = "main";
  std::vector<std::string> m_sections{"main"};
  int m_secid = 0;
  DescRef m_desc{nullptr, nullptr};
  std::vector<uint64_t> m_states;
  std::vector<std::string> m_samples;
  std::set<std::string> m_outcomes;
  std::map<std::string, int> m_written_samples;
  std::set<std::string> m_written_outcomes;
  FILE *m_failfile = nullptr, *m_statefile = nullptr, *m_sampfile = nullptr;
};

#define MC_CASE(X_, ...)                                                                                               \
  auto mc_desc_ = [&]() -> std::string { return mc::fmt(__VA_ARGS__); };                                               \
  if (!(X_).next(mc::ref(mc_desc_)))                                                                                   \
  continue
// the description is an arbitrary std::string expression
#define MC_CASE_S(X_, EXPR_)                                                                                           \
  auto mc_desc_ = [&]() -> std::string { return (EXPR_); };                                                            \
  if (!(X_).next(mc::ref(mc_desc_)))                                                                                   \
  continue

inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline void child_limits() {
  // keep stderr of a dying child small
}

struct Main {
  std::string out, tier = "quick", only;
  int jobs = 8;
  double budget = 420, hang = 20, replay_budget = 120;

  std::string path(const char *suffix, int w) { return out + "." + suffix + std::to_string(w); }

  void worker(X &x, int w, const std::function<void(X &)> &body, Shm *shm) {
    x.m_shm = shm;
    x.m_w = w;
    x.tier = tier;
    x.m_failfile = fopen(path("fail", w).c_str(), "a");
    x.m_statefile = fopen(path("states", w).c_str(), "a");
    x.m_sampfile = fopen(path("samp", w).c_str(), "a");
    int fd = open(path("err", w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    body(x);
    x.commit();
    FILE *f = fopen((out + ".sections").c_str(), "w");
    for (auto &s : x.m_sections)
      fprintf(f, "%s\n", s.c_str());
    fclose(f);
    fclose(x.m_failfile);
    fclose(x.m_statefile);
    fclose(x.m_sampfile);
    _exit(0);
  }

  static std::string slurp(const std::string &p, size_t cap = 1 << 20) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > cap)
      s.resize(cap);
    return s;
  }

  static std::string crash_class(int status, const std::string &err, bool hung) {
    if (hung)
      return "hang";
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
      p += 25;
      size_t e = err.find_first_of(" \n", p);
      std::string k = err.substr(p, e - p);
      return "crash:" + k;
    }
    if (err.find("terminate called") != std::string::npos)
      return "crash:terminate";
    if (err.find("Assertion") != std::string::npos)
      return "crash:assert";
    if (WIFSIGNALED(status))
      return fmt("crash:signal-%d", WTERMSIG(status));
    return fmt("crash:exit-%d", WEXITSTATUS(status));
  }
  static std::string crash_detail(const std::string &err) {
    size_t p = err.find("ERROR: AddressSanitizer");
    std::string d;
    if (p != std::string::npos) {
      d = err.substr(p, err.find('\n', p) - p);
      // first frames in dynd
      size_t q = p;
      int n = 0;
      while (n < 4 && (q = err.find("\n    #", q)) != std::string::npos) {
        size_t e = err.find('\n', q + 1);
        std::string fr = err.substr(q + 1, e - q - 1);
        q = q + 1;
        if (fr.find("/repo/") != std::string::npos || fr.find("dynd") != std::string::npos) {
          size_t in = fr.find(" in ");
          if (in != std::string::npos)
            fr = fr.substr(in + 4);
          if (fr.size() > 240)
            fr.resize(240);
          d += " <- " + fr;
          ++n;
        }
      }
    } else {
      d = err.substr(0, 400);
    }
    return d;
  }

  // Runs one case alone; returns class of failure or "" if it passed.
  struct Replay {
    std::vector<std::pair<std::string, std::string>> fails; // cls, detail
    std::string desc, section;
  };
  Replay replay(int64_t u, int64_t l, const std::function<void(X &)> &body, Shm *shm, bool verbose, double limit) {
    Replay r;
    std::string ff = out + ".rfail", fe = out + ".rerr", fd_ = out + ".rdesc";
    unlink(ff.c_str());
    unlink(fe.c_str());
    unlink(fd_.c_str());
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
      if (!verbose) {
        int fd = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
      }
      X x;
      x.m_shm = shm;
      x.m_w = MAXW - 1;
      x.tier = tier;
      x.m_only_unit = u;
      x.m_only_local = l;
      x.m_verbose = verbose;
      x.m_describe_to = fd_.c_str();
      x.m_failfile = fopen(ff.c_str(), "w");
      body(x);
      fclose(x.m_failfile);
      fflush(NULL);
      _exit(0);
    }
    int st = 0;
    double t0 = now();
    bool hung = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
      usleep(2000);
      if (now() - t0 > limit) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        hung = true;
        break;
      }
    }
    std::string d = slurp(fd_);
    size_t nl = d.find('\n');
    if (nl != std::string::npos) {
      r.section = d.substr(0, nl);
      r.desc = d.substr(nl + 1);
    }
    std::istringstream in(slurp(ff));
    std::string line;
    while (std::getline(in, line)) {
      std::vector<std::string> c;
      std::string t;
      std::istringstream ls(line);
      while (std::getline(ls, t, '\t'))
        c.push_back(t);
      c.resize(6);
      r.fails.push_back({c[3], c[5]});
    }
    if (hung || st != 0) {
      std::string err = verbose ? "" : slurp(fe);
      r.fails.push_back({crash_class(st, err, hung), crash_detail(err)});
    }
    unlink(ff.c_str());
    unlink(fe.c_str());
    unlink(fd_.c_str());
    return r;
  }

  int run(int argc, char **argv, const std::function<void(X &)> &body) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() { return std::string(argv[++i]); };
      if (a == "--out")
        out = val();
      else if (a == "--tier")
        tier = val();
      else if (a == "--jobs")
        jobs = atoi(val().c_str());
      else if (a == "--budget")
        budget = atof(val().c_str());
      else if (a == "--hang")
        hang = atof(val().c_str());
      else if (a == "--only")
        only = val();
    }
    if (jobs > MAXW - 1)
      jobs = MAXW - 1;
    if (out.empty())
      out = "/tmp/mc_out." + std::to_string(getpid());
    Shm *shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) {
      perror("mmap");
      return 2;
    }
    if (!only.empty()) {
      int64_t u = atoll(only.c_str()), l = atoll(only.c_str() + only.find(':') + 1);
      Replay r = replay(u, l, body, shm, true, 600);
      for (auto &f : r.fails)
        printf("REPLAYED-FAILURE %s: %s\n", f.first.c_str(), f.second.c_str());
      if (r.fails.empty())
        printf("REPLAY: case passed\n");
      return r.fails.empty() ? 0 : 1;
    }
    for (int w = 0; w < MAXW; ++w)
      for (const char *s : {"fail", "states", "samp", "err"})
        unlink(path(s, w).c_str());
    signal(SIGCHLD, SIG_DFL);
    double t0 = now();
    std::vector<pid_t> pid(jobs, 0);
    std::vector<uint64_t> lastbeat(jobs, 0);
    std::vector<double> lasttime(jobs, 0);
    fflush(NULL);
    auto spawn = [&](int w) {
      shm->w[w].unit = -1;
      shm->w[w].local = -1;
      lastbeat[w] = shm->w[w].beat;
      lasttime[w] = now();
      pid_t p = fork();
      if (p == 0) {
        X x;
        worker(x, w, body, shm);
      }
      pid[w] = p;
    };
    for (int w = 0; w < jobs; ++w)
      spawn(w);
    std::vector<Failure> fails;
    int live = jobs, crashes = 0, hangs = 0;
    bool capped = false;
    std::string fatal;
    while (live > 0) {
      usleep(5000);
      if (!capped && now() - t0 > budget) {
        capped = true;
        shm->stop = 1;
      }
      for (int w = 0; w < jobs; ++w) {
        if (!pid[w])
          continue;
        int st = 0;
        bool hung = false;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == 0) {
          uint64_t b = shm->w[w].beat;
          if (b != lastbeat[w]) {
            lastbeat[w] = b;
            lasttime[w] = now();
            continue;
          } else if (now() - lasttime[w] > hang) {
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &st, 0);
            hung = true;
          } else if (capped && now() - t0 > budget + 60) {
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &st, 0);
            pid[w] = 0;
            --live;
            continue;
          } else
            continue;
        }
        if (st == 0 && !hung) {
          pid[w] = 0;
          --live;
          continue;
        }
        // died
        int64_t u = shm->w[w].unit, l = shm->w[w].local;
        std::string err = slurp(path("err", w));
        if (u < 0 || l < 0) {
          fatal = "worker died outside any case: " + crash_detail(err);
          pid[w] = 0;
          --live;
          shm->stop = 1;
          continue;
        }
        Failure f;
        f.unit = u;
        f.local = l;
        f.cls = crash_class(st, err, hung);
        f.detail = crash_detail(err);
        fails.push_back(f);
        ++crashes;
        hangs += hung;
        int n = shm->nskip;
        if (n >= MAXSKIP || crashes > 400 || hangs >= 8 || shm->stop) {
          shm->overflow++;
          shm->stop = 1;
          pid[w] = 0;
          --live;
          continue;
        }
        shm->skip_u[n] = u;
        shm->skip_l[n] = l;
        shm->nskip = n + 1;
        shm->claimed[u] = 0;
        spawn(w);
      }
    }
    // A unit released by a crash near the end may not have been claimed again: one more pass.
    if (crashes && !shm->stop) {
      for (int again = 0; again < 400; ++again) {
        spawn(0);
        int st = 0;
        bool hung = false;
        for (;;) {
          pid_t r = waitpid(pid[0], &st, WNOHANG);
          if (r)
            break;
          usleep(5000);
          uint64_t b = shm->w[0].beat;
          if (b != lastbeat[0]) {
            lastbeat[0] = b;
            lasttime[0] = now();
          } else if (now() - lasttime[0] > hang) {
            kill(pid[0], SIGKILL);
            waitpid(pid[0], &st, 0);
            hung = true;
            break;
          }
        }
        if (st == 0 && !hung)
          break;
        int64_t u = shm->w[0].unit, l = shm->w[0].local;
        if (u < 0 || l < 0)
          break;
        std::string err = slurp(path("err", 0));
        Failure f;
        f.unit = u;
        f.local = l;
        f.cls = crash_class(st, err, hung);
        f.detail = crash_detail(err);
        fails.push_back(f);
        int n = shm->nskip;
        if (n >= MAXSKIP)
          break;
        shm->skip_u[n] = u;
        shm->skip_l[n] = l;
        shm->nskip = n + 1;
        shm->claimed[u] = 0;
      }
    }
    size_t ncrash = fails.size();
    double tr0 = now();
    int unexamined = 0;
    for (int w = 0; w < jobs; ++w) {
      std::istringstream in(slurp(path("fail", w), 1u << 30));
      std::string line;
      while (std::getline(in, line)) {
        std::vector<std::string> c;
        std::string t;
        std::istringstream ls(line);
        while (std::getline(ls, t, '\t'))
          c.push_back(t);
        if (c.size() < 5)
          continue;
        c.resize(6);
        Failure f;
        f.unit = atoll(c[0].c_str());
        f.local = atoll(c[1].c_str());
        f.section = c[2];
        f.cls = c[3];
        f.desc = c[4];
        f.detail = c[5];
        fails.push_back(f);
      }
    }
    // Replay before report: every crash, and the first few of each class of failure.
    std::map<std::string, int> perclass;
    std::ostringstream js;
    js << "{\"failures\":[";
    bool first = true;
    int unconfirmed = 0;
    std::set<std::string> seen;
    for (size_t i = 0; i < fails.size(); ++i) {
      Failure &f = fails[i];
      std::string key = fmt("%lld:%lld:", (long long)f.unit, (long long)f.local) + f.cls;
      if (!seen.insert(key).second)
        continue;
      bool confirmed = true;
      bool iscrash = i < ncrash;
      if (now() - tr0 > replay_budget) {
        // out of time: counted, not reported
        ++unexamined;
        continue;
      }
      if (iscrash || perclass[f.section + "|" + f.cls]++ < 3) {
        Replay r = replay(f.unit, f.local, body, shm, false, f.cls == "hang" ? 2 * hang : 60);
        confirmed = !r.fails.empty();
        if (iscrash) {
          f.desc = X::esc(r.desc);
          f.section = r.section;
          if (confirmed) {
            f.cls = r.fails.back().first;
            f.detail = r.fails.back().second;
          }
          f.detail = X::esc(f.detail);
        }
      }
      if (!confirmed)
        ++unconfirmed;
      js << (first ? "" : ",") << "\n{\"unit\":" << f.unit << ",\"local\":" << f.local
         << ",\"section\":" << jstr(f.section) << ",\"cls\":" << jstr(f.cls) << ",\"desc\":" << jstr(f.desc)
         << ",\"detail\":" << jstr(f.detail) << ",\"confirmed\":" << (confirmed ? "true" : "false") << "}";
      first = false;
    }
    js << "],";
    // states
    uint64_t nstates = 0;
    {
      std::vector<uint64_t> all;
      for (int w = 0; w < jobs; ++w) {
        std::string s = slurp(path("states", w), 3ull << 30);
        size_t n = s.size() / 8, o = all.size();
        all.resize(o + n);
        memcpy(all.data() + o, s.data(), n * 8);
      }
      std::sort(all.begin(), all.end());
      nstates = std::unique(all.begin(), all.end()) - all.begin();
    }
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, std::set<std::string>> outcomes;
    for (int w = 0; w < jobs; ++w) {
      std::istringstream in(slurp(path("samp", w), 1u << 30));
      std::string line;
      while (std::getline(in, line)) {
        size_t t = line.find('\t');
        if (t == std::string::npos)
          continue;
        if (t == 1 && line[0] == 'O') {
          size_t t2 = line.find('\t', 2);
          if (t2 != std::string::npos)
            outcomes[line.substr(2, t2 - 2)].insert(line.substr(t2 + 1));
        } else if (samples[line.substr(0, t)].size() < 4)
          samples[line.substr(0, t)].push_back(line.substr(t + 1));
      }
    }
    std::vector<std::string> secs;
    {
      std::istringstream in(slurp(out + ".sections"));
      std::string l;
      while (std::getline(in, l))
        secs.push_back(l);
    }
    uint64_t tc = 0, tt = 0;
    js << "\"sections\":[";
    for (size_t i = 0; i < secs.size() && i < (size_t)MAXSEC; ++i) {
      uint64_t c = shm->cases[i], t = shm->transitions[i];
      tc += c;
      tt += t;
      js << (i ? "," : "") << "\n{\"name\":" << jstr(secs[i]) << ",\"executions\":" << c << ",\"transitions\":" << t
         << ",\"distinct_outcomes\":" << outcomes[secs[i]].size() << ",\"outcomes\":[";
      int k = 0;
      for (auto &o : outcomes[secs[i]]) {
        if (k >= 12)
          break;
        js << (k++ ? "," : "") << jstr(o);
      }
      js << "],\"samples\":[";
      k = 0;
      for (auto &o : samples[secs[i]])
        js << (k++ ? "," : "") << jstr(o);
      js << "]}";
    }
    js << "],\"executions\":" << tc << ",\"transitions\":" << tt << ",\"states\":" << nstates
       << ",\"units\":" << shm->units.load() << ",\"capped\":" << (capped ? "true" : "false")
       << ",\"unexamined\":" << unexamined << ",\"overflow\":" << shm->overflow.load() << ",\"unconfirmed\":" << unconfirmed
       << ",\"fatal\":" << jstr(fatal) << ",\"wall_s\":" << (now() - t0) << "}\n";
    FILE *f = fopen(out.c_str(), "w");
    std::string s = js.str();
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
    for (int w = 0; w < MAXW; ++w)
      for (const char *sf : {"fail", "states", "samp", "err"})
        unlink(path(sf, w).c_str());
    unlink((out + ".sections").c_str());
    printf("executions=%llu transitions=%llu states=%llu failures=%zu capped=%d wall=%.1fs\n", (unsigned long long)tc,
           (unsigned long long)tt, (unsigned long long)nstates, fails.size(), capped, now() - t0);
    return 0;
  }
};

} // namespace mc

#define MC_MAIN(BODY)                                                                                                  \
  int main(int argc, char **argv) {                                                                                    \
    mc::Main m;                                                                                                        \
    return m.run(argc, argv, [](mc::X &x) { BODY(x); });                                                               \
  }
