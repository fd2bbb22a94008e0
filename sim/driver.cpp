// Search, determinism check, minimisation and replay of simulated runs. One run = one forked process.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" int __clock_gettime(clockid_t, struct timespec*);

namespace {
using namespace rt;

double real_now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
uint64_t mix2(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

template <typename T>
T* shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return (T*)p;
}

void reset(Result* r) {
  r->status = 0;
  r->cls[0] = r->msg[0] = 0;
  r->hash = r->shape = 0;
  r->steps = 0;
  r->simtime_ns = 0;
  r->nthreads = r->switches = r->mem_accesses = 0;
  memset(r->fired, 0, sizeof r->fired);
  r->ndraws = r->ndecs = r->nprobes = r->npcs = 0;
  r->pc_other = r->pc_other2 = 0;
  r->ntrace = 0;
  r->trace[0] = 0;
}

std::vector<int> cpus;

void pin(int w) {
  cpu_set_t s;
  CPU_ZERO(&s);
  CPU_SET(cpus[w % cpus.size()], &s);
  sched_setaffinity(0, sizeof s, &s);
}

// runs one execution in a forked child
void run_one(const sim::Scenario& sc, const RunInput& in, Result* r) {
  for (int attempt = 0;; ++attempt) {
    reset(r);
    pid_t p = fork();
    if (p < 0) {
      if (attempt < 50) {
        usleep(20000);
        continue;
      }
      r->status = 3;
      snprintf(r->msg, sizeof r->msg, "fork failed");
      return;
    }
    if (p == 0)
      run_child(sc, in, r);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
      ;
    if (r->status == 0) {
      r->status = 3;
      snprintf(r->cls, sizeof r->cls, "infrastructure");
      snprintf(r->msg, sizeof r->msg, "child died without a verdict (wait status %x)", st);
    }
    return;
  }
}

struct Pick {
  const sim::Scenario* sc;
  int weight;
};
std::vector<Pick> picks;
int total_weight;

const sim::Scenario& scenario_for(uint64_t i) {
  int k = (int)(i % (uint64_t)total_weight);
  for (Pick& p : picks) {
    if (k < p.weight)
      return *p.sc;
    k -= p.weight;
  }
  return *picks[0].sc;
}
const sim::Scenario* find_scenario(const std::string& n) {
  for (int i = 0; i < scenario_count(); ++i)
    if (n == scenario(i).name)
      return &scenario(i);
  return nullptr;
}
RunInput input_for(uint64_t seed, uint64_t i) {
  RunInput in;
  in.seed = mix2(seed, i);
  return in;
}

// ------------------------------------------------------------------ shared statistics
constexpr size_t TABLE = 1u << 23;
struct WStats {
  uint64_t runs, nontrivial, faulty, steps, simns, switches, accesses, fired[NKINDS], fired_runs[NKINDS], threads;
  uint32_t nprobes;
  struct {
    char name[40];
    uint64_t n, runs;
  } probes[200];
  uint64_t sc_runs[256];
  uint32_t max_used[6];
  uint64_t given_up;
};
struct Viol {
  uint64_t index;
  char sig[200];
};
struct Shared {
  volatile uint64_t next;
  volatile int stop;
  volatile int nviol;
  Viol viol[64];
  volatile int nknown;
  char known_hit[32][200];
  volatile int nignored;
  char ignored_hit[32][200];
  volatile int ninfra;
  char infra[400];
  volatile uint64_t distinct, distinct_nontrivial;
  uint64_t table[TABLE];
  uint64_t sample_idx[8];
  char samples[8][400];
  volatile int nsamples;
};

std::string g_prop = "?";
std::vector<std::string> known;
std::vector<std::string> ignored;  // classes which are about another property
std::vector<std::string> only;     // if not empty: all other classes are about other properties

const char* bin_path() {
  static char b[4096];
  if (!b[0]) {
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
  }
  return b;
}

struct Frame {
  uint64_t pc;
  std::string fn, loc;
};
std::vector<Frame> symbolize(const std::vector<uint64_t>& pcs) {
  std::vector<Frame> out;
  std::string cmd = std::string("addr2line -Cfpe '") + bin_path() + "'";
  char b[64];
  for (uint64_t p : pcs) {
    snprintf(b, sizeof b, " 0x%" PRIx64, p ? p - 1 : 0);
    cmd += b;
  }
  cmd += " 2>/dev/null";
  FILE* f = popen(cmd.c_str(), "r");
  char line[8192];
  size_t i = 0;
  while (f && fgets(line, sizeof line, f) && i < pcs.size()) {
    std::string s = line;
    while (!s.empty() && (s.back() == '\n' || s.back() == ' '))
      s.pop_back();
    Frame fr;
    fr.pc = pcs[i++];
    size_t at = s.rfind(" at ");
    fr.fn = at == std::string::npos ? s : s.substr(0, at);
    fr.loc = at == std::string::npos ? "" : s.substr(at + 4);
    out.push_back(fr);
  }
  if (f)
    pclose(f);
  return out;
}
std::string where(uint64_t pc) {
  if (!pc)
    return "";
  auto v = symbolize({pc});
  return v.empty() ? "" : v[0].fn.substr(0, 160) + " at " + v[0].loc;
}

std::string describe(const Result* r) {
  std::string s = std::string(r->cls) + ": " + r->msg + "\n";
  std::vector<uint64_t> pcs(r->pcs, r->pcs + r->npcs);
  int k = 0;
  for (Frame& f : symbolize(pcs)) {
    if (f.fn.find("??") == 0 || f.loc.find("simrt.cpp") != std::string::npos || f.loc.find("sim/driver.cpp") != std::string::npos)
      continue;
    if (k++ > 14)
      break;
    s += "    " + f.fn.substr(0, 200) + "  " + f.loc + "\n";
  }
  if (r->pc_other)
    s += "  other access / free / allocation: " + where(r->pc_other) + "\n";
  if (r->pc_other2)
    s += "  allocated at: " + where(r->pc_other2) + "\n";
  return s;
}

std::string signature(const char* sc, const Result* r) {
  return std::string(sc) + ":" + r->cls;
}
bool is_known(const std::string& sig) {
  return std::find(known.begin(), known.end(), sig) != known.end();
}

void worker(int w, uint64_t seed, uint64_t max_runs, double t_end, Shared* sh, WStats* st) {
  pin(w);
  Result* r = shared<Result>();
  for (;;) {
    if (sh->stop || real_now() > t_end)
      break;
    uint64_t i = __atomic_fetch_add(&sh->next, 1, __ATOMIC_RELAXED);
    if (i >= max_runs)
      break;
    const sim::Scenario& sc = scenario_for(i);
    run_one(sc, input_for(seed, i), r);
    st->runs++;
    for (size_t k = 0; k < picks.size(); ++k)
      if (picks[k].sc == &sc)
        st->sc_runs[k]++;
    st->steps += r->steps;
    st->simns += r->simtime_ns;
    st->switches += r->switches;
    st->accesses += r->mem_accesses;
    st->threads += r->nthreads;
    if (r->status != 2) {
      for (int k = 0; k < 5; ++k)
        st->max_used[k] = std::max(st->max_used[k], r->used[k]);
      st->max_used[5] = std::max(st->max_used[5], r->nthreads);
    }
    st->given_up += r->status == 4;
    uint32_t faults = 0;
    for (int k = 0; k < NKINDS; ++k) {
      st->fired[k] += r->fired[k];
      st->fired_runs[k] += r->fired[k] != 0;
      if (k != K_SCHED)
        faults += r->fired[k];
    }
    bool nontriv = r->switches >= 2 || faults;
    st->nontrivial += nontriv;
    st->faulty += faults != 0;
    for (uint32_t k = 0; k < r->nprobes; ++k) {
      uint32_t j = 0;
      while (j < st->nprobes && strcmp(st->probes[j].name, r->probes[k].name))
        ++j;
      if (j == st->nprobes && j < 200) {
        strcpy(st->probes[j].name, r->probes[k].name);
        st->nprobes++;
      }
      if (j < 200) {
        st->probes[j].n += r->probes[k].n;
        st->probes[j].runs++;
      }
    }
    uint64_t h = mix2(r->shape, (uint64_t)(uintptr_t)&sc);
    if (!h)
      h = 1;
    for (size_t q = h & (TABLE - 1), n = 0; n < 64; q = (q + 1) & (TABLE - 1), ++n) {
      uint64_t cur = __atomic_load_n(&sh->table[q], __ATOMIC_RELAXED);
      if (cur == h)
        break;
      if (cur == 0) {
        uint64_t z = 0;
        if (__atomic_compare_exchange_n(&sh->table[q], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
          __atomic_fetch_add(&sh->distinct, 1, __ATOMIC_RELAXED);
          if (nontriv)
            __atomic_fetch_add(&sh->distinct_nontrivial, 1, __ATOMIC_RELAXED);
          break;
        }
        if (z == h)
          break;
      }
    }
    if (nontriv && faults && i > 20 && sh->nsamples < 6) {
      int k = __atomic_fetch_add(&sh->nsamples, 1, __ATOMIC_RELAXED);
      if (k < 6) {
        char* o = sh->samples[k];
        int n = snprintf(o, 380, "%s run %" PRIu64 ": %u threads, %u steps, %u preemptions", sc.name, i, r->nthreads,
                         r->steps, r->switches);
        for (int q = 1; q < NKINDS; ++q)
          if (r->fired[q])
            n += snprintf(o + n, 380 - n, ", %s x%u", kind_names[q], r->fired[q]);
        snprintf(o + n, 380 - n, ", hash %016" PRIx64, r->hash);
      }
    }
    if (r->status == 3) {
      if (__atomic_fetch_add(&sh->ninfra, 1, __ATOMIC_RELAXED) == 0)
        snprintf(sh->infra, sizeof sh->infra, "run %" PRIu64 " (%s): %s", i, sc.name, r->msg);
      if (sh->ninfra > 3)
        sh->stop = 1;
    } else if (r->status == 2) {
      std::string sig = signature(sc.name, r);
      auto note = [&](volatile int& n, char(&tab)[32][200]) {
        for (int k = 0; k < n && k < 32; ++k)
          if (sig == tab[k])
            return;
        int k = __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED);
        if (k < 32)
          snprintf(tab[k], 200, "%s", sig.c_str());
      };
      if (is_known(sig)) {
        note(sh->nknown, sh->known_hit);
        continue;
      }
      if (std::find(ignored.begin(), ignored.end(), std::string(r->cls)) != ignored.end() ||
          (!only.empty() && std::find(only.begin(), only.end(), std::string(r->cls)) == only.end())) {
        note(sh->nignored, sh->ignored_hit);
        continue;
      }
      int k = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_RELAXED);
      if (k < 64) {
        sh->viol[k].index = i;
        snprintf(sh->viol[k].sig, sizeof sh->viol[k].sig, "%s", sig.c_str());
      }
      if (k >= 7)
        sh->stop = 1;
      // a violation was found: give the other workers a moment (smaller ones may come), then stop
      if (k == 0)
        sh->stop = 1;
    }
  }
  _exit(0);
}

// ------------------------------------------------------------------ replay files and minimisation
struct Plan {
  const sim::Scenario* sc;
  std::vector<uint32_t> draws;
  std::vector<Dec> decs;
};
RunInput input_of(const Plan& p, bool trace = false) {
  RunInput in;
  in.replay = true;
  in.draws = p.draws.data();
  in.ndraws = p.draws.size();
  in.decs = p.decs.data();
  in.ndecs = p.decs.size();
  in.want_trace = trace;
  return in;
}
Plan plan_of(const sim::Scenario& sc, const Result* r) {
  Plan p{&sc, {r->draws, r->draws + r->ndraws}, {r->decs, r->decs + r->ndecs}};
  std::stable_sort(p.decs.begin(), p.decs.end(),
                   [](const Dec& a, const Dec& b) { return a.kind != b.kind ? a.kind < b.kind : a.ord < b.ord; });
  return p;
}

bool reproduces(const Plan& p, const std::string& cls, Result* r) {
  run_one(*p.sc, input_of(p), r);
  return r->status == 2 && cls == r->cls;
}

Plan minimise(Plan p, const std::string& cls, Result* r, double budget) {
  double t_end = real_now() + budget;
  auto late = [&] { return real_now() > t_end; };
  bool progress = true;
  for (int round = 0; round < 6 && progress && !late(); ++round) {
    progress = false;
    // drop decisions
    for (size_t chunk = std::max<size_t>(p.decs.size() / 2, 1); chunk && !late(); chunk /= 2) {
      for (size_t i = 0; i < p.decs.size() && !late();) {
        Plan q = p;
        size_t e = std::min(i + chunk, q.decs.size());
        q.decs.erase(q.decs.begin() + i, q.decs.begin() + e);
        if (reproduces(q, cls, r)) {
          // adopt the log of this run: it drops decisions that had no effect
          Plan n = plan_of(*p.sc, r);
          n.draws = q.draws;
          if (n.decs.size() <= q.decs.size())
            q.decs = n.decs;
          p = q;
          progress = true;
        } else
          i += chunk;
      }
    }
    // truncate and simplify draws
    for (size_t cut = std::max<size_t>(p.draws.size() / 2, 1); cut && !late(); cut /= 2)
      while (p.draws.size() >= cut && !late()) {
        Plan q = p;
        q.draws.resize(q.draws.size() - cut);
        if (!reproduces(q, cls, r))
          break;
        p = q;
        progress = true;
      }
    for (size_t i = p.draws.size(); i-- > 0 && !late();) {
      if (!p.draws[i])
        continue;
      for (uint32_t v : {0u, p.draws[i] / 2, p.draws[i] - 1}) {
        if (v >= p.draws[i])
          continue;
        Plan q = p;
        q.draws[i] = v;
        if (reproduces(q, cls, r)) {
          p = q;
          progress = true;
          break;
        }
      }
    }
  }
  return p;
}

bool write_replay(const std::string& path, const Plan& p, const Result* r, const std::string& text) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f)
    return false;
  fprintf(f, "kelcoro-sim-replay 1\nproperty %s\nscenario %s\nclass %s\nhash %016" PRIx64 "\n", g_prop.c_str(), p.sc->name,
          r->cls, r->hash);
  fprintf(f, "draws %zu", p.draws.size());
  for (uint32_t d : p.draws)
    fprintf(f, " %u", d);
  fprintf(f, "\n");
  for (const Dec& d : p.decs)
    fprintf(f, "dec %s %u %u\n", kind_names[d.kind], d.ord, d.val);
  fprintf(f, "end\n");
  std::string line;
  for (char c : text + "\n--- trace of the minimised run ---\n" + r->trace) {
    if (c == '\n') {
      fprintf(f, "# %s\n", line.c_str());
      line.clear();
    } else
      line += c;
  }
  fclose(f);
  return true;
}

bool read_replay(const char* path, Plan& p, std::string& cls, uint64_t& hash) {
  FILE* f = fopen(path, "r");
  if (!f)
    return false;
  char w[256], k[64];
  while (fscanf(f, "%250s", w) == 1) {
    std::string s = w;
    if (s == "kelcoro-sim-replay") {
      int v;
      if (fscanf(f, "%d", &v) != 1)
        break;
    } else if (s == "property") {
      if (fscanf(f, "%250s", w) != 1)
        break;
      g_prop = w;
    } else if (s == "scenario") {
      if (fscanf(f, "%250s", w) != 1)
        break;
      p.sc = find_scenario(w);
    } else if (s == "class") {
      if (fscanf(f, "%250s", w) != 1)
        break;
      cls = w;
    } else if (s == "hash") {
      if (fscanf(f, "%" SCNx64, &hash) != 1)
        break;
    } else if (s == "draws") {
      size_t n = 0;
      if (fscanf(f, "%zu", &n) != 1)
        break;
      p.draws.resize(n);
      for (auto& d : p.draws)
        if (fscanf(f, "%u", &d) != 1)
          break;
    } else if (s == "dec") {
      Dec d{};
      if (fscanf(f, "%60s %u %u", k, &d.ord, &d.val) != 3)
        break;
      for (int i = 0; i < NKINDS; ++i)
        if (!strcmp(kind_names[i], k))
          d.kind = i;
      p.decs.push_back(d);
    } else if (s == "end")
      break;
  }
  fclose(f);
  return p.sc;
}

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      (o += '\\') += c;
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += '?';
    else
      o += c;
  }
  return o + "\"";
}

int do_replay(const char* path, bool quiet_out) {
  Plan p{};
  std::string cls;
  uint64_t hash = 0;
  if (!read_replay(path, p, cls, hash)) {
    fprintf(stderr, "cannot read %s, or it names a scenario which this binary does not have\n", path);
    return 2;
  }
  Result* r = shared<Result>();
  run_one(*p.sc, input_of(p, true), r);
  if (!quiet_out) {
    printf("%s\n", r->trace);
    if (r->status == 2)
      printf("%s", describe(r).c_str());
  }
  if (r->status == 2 && cls == r->cls && r->hash == hash) {
    printf("reproduced: scenario %s class %s hash %016" PRIx64 "\n", p.sc->name, r->cls, r->hash);
    printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), path);
    return 1;
  }
  printf("not reproduced: status %d class %s (expected %s) hash %016" PRIx64 " (expected %016" PRIx64 ") %s\n", r->status, r->cls,
         cls.c_str(), r->hash, hash, r->msg);
  return r->status == 1 ? 0 : 2;
}

}  // namespace

int main(int argc, char** argv) {
  if (!getenv("KELSIM_NOASLR")) {
    setenv("KELSIM_NOASLR", "1", 1);
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::string mode = argc > 1 ? argv[1] : "help";
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0 && i + 1 < argc)
      o[a.substr(2)] = argv[++i];
    else
      pos.push_back(a);
  }
  auto num = [&](const char* k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
  if (o.count("prop"))
    g_prop = o["prop"];
  cpu_set_t cs;
  CPU_ZERO(&cs);
  sched_getaffinity(0, sizeof cs, &cs);
  for (int i = 0; i < CPU_SETSIZE; ++i)
    if (CPU_ISSET(i, &cs))
      cpus.push_back(i);
  if (cpus.empty())
    cpus.push_back(0);
  if (mode == "list") {
    for (int i = 0; i < scenario_count(); ++i)
      printf("%s %d %s\n", scenario(i).name, scenario(i).weight, scenario(i).about);
    return 0;
  }
  if (o.count("scenarios")) {
    std::string s = o["scenarios"];
    size_t b = 0;
    while (b < s.size()) {
      size_t e = s.find(',', b);
      if (e == std::string::npos)
        e = s.size();
      std::string item = s.substr(b, e - b);
      int w = -1;
      size_t c = item.find(':');
      if (c != std::string::npos) {
        w = atoi(item.c_str() + c + 1);
        item.resize(c);
      }
      const sim::Scenario* sc = find_scenario(item);
      if (!sc) {
        fprintf(stderr, "no scenario %s\n", item.c_str());
        return 2;
      }
      picks.push_back({sc, w < 0 ? sc->weight : w});
      b = e + 1;
    }
  } else
    for (int i = 0; i < scenario_count(); ++i)
      picks.push_back({&scenario(i), scenario(i).weight});
  // registration order depends on link order only; sort by name to be independent of it
  std::sort(picks.begin(), picks.end(), [](const Pick& a, const Pick& b) { return strcmp(a.sc->name, b.sc->name) < 0; });
  for (Pick& p : picks)
    total_weight += p.weight;
  if (!total_weight) {
    fprintf(stderr, "no scenarios\n");
    return 2;
  }
  if (o.count("known")) {
    FILE* f = fopen(o["known"].c_str(), "r");
    char line[400];
    while (f && fgets(line, sizeof line, f)) {
      std::string s = line;
      while (!s.empty() && (s.back() == '\n' || s.back() == ' '))
        s.pop_back();
      if (!s.empty())
        known.push_back(s);
    }
    if (f)
      fclose(f);
  }
  auto list = [&](const char* name, std::vector<std::string>& to) {
    if (!o.count(name))
      return;
    std::string s = o[name] + ",", w;
    for (char c : s)
      if (c == ',') {
        if (!w.empty())
          to.push_back(w);
        w.clear();
      } else
        w += c;
  };
  list("ignore", ignored);
  list("only", only);
  global_init();
  uint64_t seed = o.count("seed") ? strtoull(o["seed"].c_str(), nullptr, 0) : 1;

  if (mode == "replay") {
    pin(0);
    return do_replay(pos.empty() ? "" : pos[0].c_str(), o.count("quiet"));
  }
  if (mode == "one") {
    pin(0);
    uint64_t i = strtoull(o["index"].c_str(), nullptr, 0);
    Result* r = shared<Result>();
    RunInput in = input_for(seed, i);
    in.want_trace = true;
    run_one(scenario_for(i), in, r);
    printf("%s\nscenario %s status %d hash %016" PRIx64 " steps %u threads %u draws %u decs %u\n", r->trace, scenario_for(i).name,
           r->status, r->hash, r->steps, r->nthreads, r->ndraws, r->ndecs);
    if (r->status >= 2)
      printf("%s", describe(r).c_str());
    return r->status == 1 ? 0 : r->status == 2 ? 1 : 2;
  }
  int workers = (int)num("workers", cpus.size());
  if (mode == "determinism") {
    // every run three times: twice from the PRNG (by different workers), once from its own decision log
    uint64_t n = (uint64_t)num("runs", 2000);
    uint64_t* bad = shared<uint64_t>(4);
    uint64_t* hs = shared<uint64_t>(n);
    for (int pass = 0; pass < 2; ++pass) {
      int W = pass == 0 ? workers : std::max(1, workers / 2 + 1);
      for (int w = 0; w < W; ++w)
        if (fork() == 0) {
          pin(w);
          Result* r = shared<Result>();
          Result* r2 = shared<Result>();
          for (uint64_t i = w; i < n; i += W) {
            run_one(scenario_for(i), input_for(seed, i), r);
            if (r->status == 3)
              bad[2]++, fprintf(stderr, "infra run %" PRIu64 ": %s\n", i, r->msg);
            if (pass == 0) {
              hs[i] = r->hash;
              Plan p = plan_of(scenario_for(i), r);
              run_one(scenario_for(i), input_of(p), r2);
              if (r2->hash != r->hash || r2->status != r->status) {
                __atomic_fetch_add(&bad[1], 1, __ATOMIC_RELAXED);
                fprintf(stderr, "replay of run %" PRIu64 " (%s) differs: status %d/%d steps %u/%u\n", i, scenario_for(i).name,
                        r->status, r2->status, r->steps, r2->steps);
              }
            } else if (hs[i] != r->hash) {
              __atomic_fetch_add(&bad[0], 1, __ATOMIC_RELAXED);
              fprintf(stderr, "run %" PRIu64 " (%s) differs between two executions\n", i, scenario_for(i).name);
            }
          }
          _exit(0);
        }
      while (wait(nullptr) > 0)
        ;
    }
    if (o.count("hashes")) {
      FILE* f = fopen(o["hashes"].c_str(), "w");
      for (uint64_t i = 0; f && i < n; ++i)
        fprintf(f, "%016" PRIx64 "\n", hs[i]);
      if (f)
        fclose(f);
    }
    printf("determinism: %" PRIu64 " runs, %" PRIu64 " differ between executions, %" PRIu64 " differ in replay, %" PRIu64 " infrastructure\n", n,
           bad[0], bad[1], bad[2]);
    return bad[0] || bad[1] || bad[2] ? 2 : 0;
  }
  if (mode != "search") {
    fprintf(stderr, "modes: list | search | replay FILE | one --index N | determinism --runs N\n");
    return 2;
  }

  double t0 = real_now();
  double time_limit = num("time", 20);
  uint64_t max_runs = (uint64_t)num("runs", 1e12);
  Shared* sh = shared<Shared>();
  WStats* ws = shared<WStats>(64);
  workers = std::min(workers, 64);
  uint64_t start = (uint64_t)num("start", 0);
  sh->next = start;
  if (max_runs < 1e12)
    max_runs += start;
  printf("seed %" PRIu64 " property %s workers %d\n", seed, g_prop.c_str(), workers);
  fflush(stdout);
  Result* r = shared<Result>();
  int exit_code = 0;
  std::string viol_json;
  double search_wall = 0;
  double deadline = t0 + time_limit;
  int unreproduced = 0;
  for (int attempt = 0; attempt < 4; ++attempt) {
    sh->stop = 0;
    sh->nviol = 0;
    double ts = real_now();
    std::vector<pid_t> kids;
    for (int w = 0; w < workers; ++w) {
      pid_t p = fork();
      if (p == 0)
        worker(w, seed, max_runs, deadline, sh, &ws[w]);
      kids.push_back(p);
    }
    for (pid_t p : kids)
      waitpid(p, nullptr, 0);
    search_wall += real_now() - ts;
    pin(0);
    if (!sh->nviol)
      break;
    int nv = std::min((int)sh->nviol, 64);
    std::sort(sh->viol, sh->viol + nv, [](const Viol& a, const Viol& b) { return a.index < b.index; });
    bool done = false;
    for (int k = 0; k < nv && !done; ++k) {
      uint64_t i = sh->viol[k].index;
      const sim::Scenario& sc = scenario_for(i);
      uint64_t h[2];
      std::string cls;
      bool ok = true;
      for (int q = 0; q < 2; ++q) {
        run_one(sc, input_for(seed, i), r);
        h[q] = r->hash;
        if (r->status != 2)
          ok = false;
        cls = r->cls;
      }
      if (!ok || h[0] != h[1]) {
        fprintf(stderr, "run %" PRIu64 " (%s) is not repeatable\n", i, sh->viol[k].sig);
        ++unreproduced;
        continue;
      }
      std::string full = describe(r);
      Plan p = plan_of(sc, r);
      size_t d0 = p.decs.size(), w0 = p.draws.size();
      if (!reproduces(p, cls, r)) {
        fprintf(stderr, "run %" PRIu64 " (%s) does not replay from its decision log: status %d %s\n", i, sh->viol[k].sig,
                r->status, r->msg);
        ++unreproduced;
        continue;
      }
      p = minimise(p, cls, r, num("minimise", 15));
      run_one(sc, input_of(p, true), r);
      if (r->status != 2 || cls != r->cls) {
        ++unreproduced;
        continue;
      }
      std::string text = describe(r);
      std::string path = o.count("replay-out") ? o["replay-out"] : "/tmp/kelsim.replay";
      text += "found by seed " + std::to_string(seed) + " run " + std::to_string(i) + "; minimised from " + std::to_string(d0) +
              " decisions and " + std::to_string(w0) + " draws to " + std::to_string(p.decs.size()) + " and " +
              std::to_string(p.draws.size()) + "\n";
      write_replay(path, p, r, text);
      // fresh process
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        execl("/proc/self/exe", bin_path(), "replay", path.c_str(), "--quiet", "1", (char*)nullptr);
        _exit(2);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
        fprintf(stderr, "replay of %s in a fresh process does not reproduce\n", path.c_str());
        ++unreproduced;
        continue;
      }
      printf("%s", text.c_str());
      printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), path.c_str());
      viol_json = "{\"seed\": " + std::to_string(seed) + ", \"run\": " + std::to_string(i) + ", \"scenario\": " + jstr(sc.name) +
                  ", \"class\": " + jstr(cls) + ", \"message\": " + jstr(r->msg) + ", \"replay\": " + jstr(path) +
                  ", \"decisions\": " + std::to_string(p.decs.size()) + ", \"decisions_before\": " + std::to_string(d0) + "}";
      exit_code = 1;
      done = true;
    }
    if (done || real_now() > deadline)
      break;
  }
  if (!exit_code && unreproduced) {
    fprintf(stderr, "%d violations could not be reproduced\n", unreproduced);
    exit_code = 2;
  }
  if (!exit_code && sh->ninfra) {
    fprintf(stderr, "%d infrastructure errors; first: %s\n", sh->ninfra, sh->infra);
    exit_code = 2;
  }
  WStats t{};
  std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
  for (int w = 0; w < workers; ++w) {
    t.runs += ws[w].runs;
    t.nontrivial += ws[w].nontrivial;
    t.faulty += ws[w].faulty;
    t.steps += ws[w].steps;
    t.simns += ws[w].simns;
    t.switches += ws[w].switches;
    t.accesses += ws[w].accesses;
    t.threads += ws[w].threads;
    for (int k = 0; k < 6; ++k)
      t.max_used[k] = std::max(t.max_used[k], ws[w].max_used[k]);
    t.given_up += ws[w].given_up;
    for (int k = 0; k < NKINDS; ++k)
      t.fired[k] += ws[w].fired[k], t.fired_runs[k] += ws[w].fired_runs[k];
    for (size_t k = 0; k < picks.size(); ++k)
      t.sc_runs[k] += ws[w].sc_runs[k];
    for (uint32_t k = 0; k < ws[w].nprobes; ++k) {
      auto& q = probes[ws[w].probes[k].name];
      q.first += ws[w].probes[k].n;
      q.second += ws[w].probes[k].runs;
    }
  }
  double wall = real_now() - t0;
  printf("%" PRIu64 " runs in %.1f s, %" PRIu64 " distinct interleavings (%" PRIu64 " nontrivial), %.1f steps/run\n", t.runs, search_wall,
         (uint64_t)sh->distinct, (uint64_t)sh->distinct_nontrivial, t.runs ? (double)t.steps / t.runs : 0.0);
  for (int k = 0; k < sh->nknown && k < 32; ++k)
    printf("KNOWN %s\n", sh->known_hit[k]);
  for (int k = 0; k < sh->nignored && k < 32; ++k)
    printf("seen, but about another property: %s\n", sh->ignored_hit[k]);
  if (o.count("out")) {
    FILE* f = fopen(o["out"].c_str(), "w");
    if (!f)
      return 2;
    fprintf(f, "{\"runs\": %" PRIu64 ", \"wall\": %.3f, \"search_wall\": %.3f, \"distinct\": %" PRIu64 ", \"distinct_nontrivial\": %" PRIu64
               ", \"nontrivial_runs\": %" PRIu64 ", \"runs_with_faults\": %" PRIu64 ", \"steps\": %" PRIu64 ", \"sim_seconds\": %.6f"
               ", \"preemptions\": %" PRIu64 ", \"memory_accesses\": %" PRIu64 ", \"threads\": %" PRIu64 ", \"first_run\": %" PRIu64,
            t.runs, wall, search_wall, (uint64_t)sh->distinct, (uint64_t)sh->distinct_nontrivial, t.nontrivial, t.faulty, t.steps,
            t.simns * 1e-9, t.switches, t.accesses, t.threads, start);
    fprintf(f, ", \"given_up\": %" PRIu64 ", \"max_used\": {\"heap_kib\": %u, \"allocations\": %u, \"atomics\": %u, \"sync_objects\": %u, \"decisions\": %u, "
               "\"threads\": %u}",
            t.given_up, t.max_used[0], t.max_used[1], t.max_used[2], t.max_used[3], t.max_used[4], t.max_used[5]);
    fprintf(f, ", \"faults\": {");
    for (int k = 0; k < NKINDS; ++k)
      fprintf(f, "%s\"%s\": {\"injected\": %" PRIu64 ", \"runs\": %" PRIu64 "}", k ? ", " : "", kind_names[k], t.fired[k], t.fired_runs[k]);
    fprintf(f, "}, \"scenarios\": {");
    for (size_t k = 0; k < picks.size(); ++k)
      fprintf(f, "%s%s: {\"runs\": %" PRIu64 ", \"about\": %s}", k ? ", " : "", jstr(picks[k].sc->name).c_str(), t.sc_runs[k],
              jstr(picks[k].sc->about).c_str());
    fprintf(f, "}, \"probes\": {");
    bool first = true;
    for (auto& q : probes) {
      fprintf(f, "%s%s: {\"hits\": %" PRIu64 ", \"runs\": %" PRIu64 "}", first ? "" : ", ", jstr(q.first).c_str(), q.second.first,
              q.second.second);
      first = false;
    }
    fprintf(f, "}, \"samples\": [");
    for (int k = 0; k < sh->nsamples && k < 6; ++k)
      fprintf(f, "%s%s", k ? ", " : "", jstr(sh->samples[k]).c_str());
    fprintf(f, "], \"known\": [");
    for (int k = 0; k < sh->nknown && k < 32; ++k)
      fprintf(f, "%s%s", k ? ", " : "", jstr(sh->known_hit[k]).c_str());
    fprintf(f, "], \"ignored\": [");
    for (int k = 0; k < sh->nignored && k < 32; ++k)
      fprintf(f, "%s%s", k ? ", " : "", jstr(sh->ignored_hit[k]).c_str());
    fprintf(f, "], \"violation\": %s, \"infra\": %d}\n", viol_json.empty() ? "null" : viol_json.c_str(), sh->ninfra);
    fclose(f);
  }
  return exit_code;
}
