// Runner: seeded exploration, exact replay, minimisation. One process per run.
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" int __real_close(int);
extern "C" int __real_clock_gettime(clockid_t, timespec*);

namespace sim {
static int san_timeout = 20;
static std::string known_file;
static std::string logdir = ".";

static double wall() { timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static void reset_result() {
  u32 keep = 0; (void)keep;
  memset((void*)R, 0, offsetof(Result, sched));
  R->ntrace = 0;
}
static void child(Plan const& p) {
  rlimit cl{(rlim_t)san_timeout, (rlim_t)san_timeout + 2};
  setrlimit(RLIMIT_CPU, &cl);
  rlimit nc{0, 0};
  setrlimit(RLIMIT_CORE, &nc);
  core_init(p);
  go_in(self);
  kernel_init();
  n_watch = (int)P.get("watchers", 1);
  W.resize((size_t)n_watch);
  for (int i = 0; i < n_watch; i++) W[i].idx = i;
  run_ops(0);
  finish_run();
}
static std::string san_log() { return logdir + "/san." + std::to_string(getpid()); }
static std::string first_lines(std::string const& f) {
  std::ifstream in(f);
  std::string l, o;
  while (std::getline(in, l)) {
    if (l.find("ERROR: ") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos || (l.find(" #") != std::string::npos && l.find(" in ") != std::string::npos && o.size() < 700)) {
      size_t k = l.find_first_not_of(' ');
      o += (o.empty() ? "" : " | ") + l.substr(k == std::string::npos ? 0 : k);
    }
    if (o.size() > 900) break;
  }
  return o;
}
// runs one plan in a process of its own; R holds the outcome
static void run_plan(Plan const& p, bool trace) {
  reset_result();
  trace_on = trace;
  fflush(stdout);
  std::string lf = san_log();
  pid_t pid = fork();
  if (pid == 0) {
    FILE* f = freopen(lf.c_str(), "w", stderr); (void)f;
    if (! getenv("SIM_STDOUT")) { f = freopen("/dev/null", "w", stdout); (void)f; }
    child(p);
    _exit(0);
  }
  int st = 0;
  double t0 = wall();
  bool killed = false;
  timespec ns{0, 20000};
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    double dt = wall() - t0;
    if (dt > san_timeout * 3) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; }
    if (dt > 0.0005) ns.tv_nsec = 200000;
    if (dt > 0.2) ns.tv_nsec = 5000000;
    clock_nanosleep(CLOCK_MONOTONIC, 0, &ns, nullptr);
  }
  auto add = [&](std::string const& c, std::string const& m) {
    if (R->nviol < 12) { auto& v = R->v[R->nviol++]; snprintf(v.cls, sizeof v.cls, "%s", c.c_str()); snprintf(v.msg, sizeof v.msg, "%s", m.c_str()); }
  };
  std::string log = first_lines(lf);
  if (killed) add("hang.real", "the run never ended (no simulated call was made any more)");
  else if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGXCPU || s == SIGKILL) add("hang.real", "the run used up its processor time without making a simulated call");
    else add("crash." + std::to_string(s), std::string("the program was killed by signal ") + strsignal(s) + " " + log);
  } else if (WEXITSTATUS(st) == 66) add("san.race", log);
  else if (WEXITSTATUS(st) == 77 || log.find("runtime error") != std::string::npos) add("san.memory", log);
  else if (WEXITSTATUS(st) == 99 ) {}
  else if (WEXITSTATUS(st) != 0 || ! R->done) {
    std::ifstream in(lf); std::stringstream ss; ss << in.rdbuf();
    add(WEXITSTATUS(st) == 3 ? "sim.unsupported" : "crash.exit", "the program exited with " + std::to_string(WEXITSTATUS(st)) + " " + log + " " + ss.str().substr(0, 400));
  }
  if (! getenv("SIM_KEEPLOG")) unlink(lf.c_str());
}
static bool class_match(std::string const& cls, std::vector<std::string> const& want) {
  if (want.empty()) return true;
  for (auto& w : want)
    if (cls.compare(0, w.size(), w) == 0) return true;
  return false;
}
static int find_class(std::vector<std::string> const& want, std::string const* exact = nullptr) {
  for (int i = 0; i < R->nviol; i++)
    if (exact ? *exact == R->v[i].cls : class_match(R->v[i].cls, want)) return i;
  return -1;
}
static void record(Plan& p) { // make the plan carry its own choices
  p.replay = true;
  p.sched.assign(R->sched, R->sched + R->nsched);
  p.env.assign(R->env, R->env + R->nenv);
}
static std::string jesc(std::string const& s) {
  std::string o;
  for (unsigned char c : s)
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  return o;
}

// ------------------------------------------------------------ minimise
static Plan minimise(Plan p, std::string const& cls, double budget) {
  double end = wall() + budget;
  int tries = 0;
  auto fails = [&](Plan const& q) {
    if (wall() > end) return false;
    tries++;
    run_plan(q, false);
    return find_class({}, &cls) >= 0;
  };
  // a candidate may be re-recorded, so that the file always replays exactly
  auto keep = [&](Plan q) { record(q); p = q; };
  bool again = true;
  for (int round = 0; round < 4 && again && wall() < end; round++) {
    again = false;
    // operations, per task, in shrinking chunks
    for (size_t t = 0; t < p.tasks.size(); t++)
      for (size_t len = std::max<size_t>(1, p.tasks[t].size() / 2);; len /= 2) {
        for (size_t i = 0; i + len <= p.tasks[t].size() && wall() < end;) {
          Plan q = p;
          bool has = false;
          for (size_t k = i; k < i + len; k++) if (q.tasks[t][k].verb == "setup" && len > 1) has = true;
          (void)has;
          q.tasks[t].erase(q.tasks[t].begin() + (long)i, q.tasks[t].begin() + (long)(i + len));
          if (fails(q)) { keep(q); again = true; } else i += len;
        }
        if (len <= 1) break;
      }
    for (size_t i = 0; i < p.faults.size();) { Plan q = p; q.faults.erase(q.faults.begin() + (long)i); if (fails(q)) keep(q), again = true; else i++; }
    for (size_t i = 0; i < p.preempts.size();) { Plan q = p; q.preempts.erase(q.preempts.begin() + (long)i); if (fails(q)) keep(q), again = true; else i++; }
    // choices: fewer unusual ones
    for (auto m : {&Plan::env, &Plan::sched}) {
      { Plan q = p; std::fill((q.*m).begin(), (q.*m).end(), 0); if (q.*m != p.*m && fails(q)) { keep(q); again = true; } }
      for (size_t len = std::max<size_t>(1, (p.*m).size() / 2);; len /= 2) {
        for (size_t i = 0; i < (p.*m).size() && wall() < end; i += len) {
          Plan q = p;
          size_t e = std::min((q.*m).size(), i + len);
          bool any = false;
          for (size_t k = i; k < e; k++) if ((q.*m)[k]) any = true, (q.*m)[k] = 0;
          if (any && fails(q)) { keep(q); again = true; }
        }
        if (len <= 1) break;
      }
    }
    // simpler numbers
    for (size_t t = 0; t < p.tasks.size(); t++)
      for (size_t i = 0; i < p.tasks[t].size(); i++) {
        auto& o = p.tasks[t][i];
        if ((o.verb == "many" || o.verb == "flood") && atoi(o.a[0].c_str()) > 2) {
          Plan q = p;
          q.tasks[t][i].a[0] = std::to_string(atoi(o.a[0].c_str()) / 2);
          if (fails(q)) keep(q), again = true;
        }
      }
  }
  // drop trailing benign choices
  for (auto m : {&Plan::env, &Plan::sched}) while (! (p.*m).empty() && (p.*m).back() == 0) (p.*m).pop_back();
  fprintf(stderr, "minimise: %d tries\n", tries);
  return p;
}
static std::vector<std::string> splitc(std::string const& s) {
  std::vector<std::string> v;
  std::stringstream in(s);
  std::string x;
  while (std::getline(in, x, ',')) if (! x.empty()) v.push_back(x);
  return v;
}
static void load_known(std::string const& f) {
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) { // sig lines: "signature: <name>"
    auto k = l.find("signature=");
    if (k == std::string::npos || l.compare(0, 6, "fixed:") == 0) continue;
    std::string s = l.substr(k + 10);
    known_sigs.insert(s.substr(0, s.find(' ')));
  }
}
} // namespace sim
using namespace sim;

int main(int argc, char** argv) {
  if (! getenv("SIM_NOASLR")) { // addresses never influence a run, but let reports be identical, too
    setenv("SIM_NOASLR", "1", 1);
    setenv("TSAN_OPTIONS", "exitcode=66:report_thread_leaks=0:halt_on_error=1:report_signal_unsafe=0:atexit_sleep_ms=0", 1);
    setenv("ASAN_OPTIONS", "exitcode=77:detect_leaks=0:abort_on_error=0", 1);
    setenv("UBSAN_OPTIONS", "exitcode=77:print_stacktrace=1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto O = [&](char const* k, std::string d = "") { return o.count(k) ? o[k] : d; };
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (o.count("--known")) load_known(o["--known"]);
  logdir = O("--tmp", "/tmp");
  san_timeout = atoi(O("--cpu", "20").c_str());
  auto want = splitc(O("--classes"));
  signal(SIGPIPE, SIG_IGN);

  if (sut_boot && mode != "gen") sut_boot();
  if (mode == "explore") {
    u64 seed = strtoull(O("--seed", "1").c_str(), nullptr, 10), stride = strtoull(O("--stride", "1").c_str(), nullptr, 10);
    u64 count = strtoull(O("--count", "1000000000").c_str(), nullptr, 10);
    double limit = atof(O("--time", "10").c_str());
    int maxv = atoi(O("--max-violations", "3").c_str());
    std::string outdir = O("--out", ".");
    double t0 = wall();
    u64 runs = 0, steps = 0, simns = 0, reports = 0, changes = 0, entries = 0, batches = 0, switches = 0, truncated = 0;
    std::set<u64> hashes, paths;
    std::map<std::string, u64> faults, probes, known, others;
    std::set<std::string> seen;
    std::map<std::string, u64> viol;
    int nv = 0;
    bool unsupported = false;
    for (u64 i = 0; i < count && wall() - t0 < limit; i++, seed += stride) {
      Plan p = generate(O("--prop"), O("--profile"), O("--glue"), seed);
      run_plan(p, false);
      runs++;
      steps += R->steps; simns += R->sim_ns > 5000000000ull ? R->sim_ns - 5000000000ull : 0; reports += R->reports; changes += R->changes;
      entries += R->entries; batches += R->batches; switches += R->nswitch;
      if (R->nsched >= sizeof R->sched) truncated++;
      if (R->reports > 2 || R->nfault) hashes.insert(R->hash);
      paths.insert(R->paths_hash);
      for (int k = 0; k < R->nfault; k++) faults[std::string(R->f[k].site) + ":" + (R->f[k].err > 0 ? std::to_string(R->f[k].err) : "-")] += R->f[k].n;
      for (int k = 0; k < R->nprobe; k++) probes[R->probe[k].name] += R->probe[k].n;
      for (int k = 0; k < R->nknown; k++) known[R->k[k].sig]++;
      bool hit = false;
      for (int k = 0; k < R->nviol; k++) {
        std::string c = R->v[k].cls;
        if (c == "sim.unsupported") unsupported = true, fprintf(stderr, "unsupported: seed %llu %s\n", (unsigned long long)seed, R->v[k].msg);
        if (class_match(c, want)) { viol[c]++; if (! seen.count(c)) hit = true; }
        else others[c]++;
      }
      if (hit) {
        nv++;
        int first = 0; // the earliest one of the wanted classes which is not known yet
        for (int k = R->nviol - 1; k >= 0; k--) if (class_match(R->v[k].cls, want) && ! seen.count(R->v[k].cls)) first = k;
        std::string c = R->v[first].cls, m = R->v[first].msg;
        seen.insert(c);
        record(p);
        std::string fn = outdir + "/found-" + O("--tag", "x") + "-" + std::to_string(seed) + ".replay";
        std::ofstream(fn) << plan_to_text(p);
        printf("FOUND %s %s %s\n", c.c_str(), fn.c_str(), jesc(m).c_str());
        fflush(stdout);
        if (nv >= maxv) break;
      }
    }
    std::string h = O("--hashes");
    if (! h.empty()) { std::ofstream f(h, std::ios::binary); for (u64 x : hashes) f.write((char*)&x, 8); }
    std::ostringstream js;
    js << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"sim_ns\":" << simns << ",\"reports\":" << reports << ",\"changes\":" << changes
       << ",\"entries\":" << entries << ",\"batches\":" << batches << ",\"switches\":" << switches << ",\"truncated\":" << truncated << ",\"distinct\":" << hashes.size()
       << ",\"distinct_reports\":" << paths.size() << ",\"wall\":" << wall() - t0 << ",\"unsupported\":" << unsupported;
    auto dump = [&](char const* n, std::map<std::string, u64> const& m) {
      js << ",\"" << n << "\":{";
      bool f = true;
      for (auto& x : m) js << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second, f = false;
      js << "}";
    };
    dump("faults", faults); dump("probes", probes); dump("known", known); dump("violations", viol); dump("other", others);
    js << "}";
    printf("STATS %s\n", js.str().c_str());
    return unsupported ? 2 : nv ? 1 : 0;
  }
  if (mode == "gen") {
    Plan p = generate(O("--prop"), O("--profile"), O("--glue"), strtoull(O("--seed", "1").c_str(), nullptr, 10));
    fputs(plan_to_text(p).c_str(), stdout);
    return 0;
  }
  if (mode == "replay" || mode == "minimise" || mode == "gate") {
    Plan p;
    if (o.count("--file")) {
      std::ifstream in(o["--file"]);
      std::stringstream ss;
      ss << in.rdbuf();
      if (! plan_from_text(ss.str(), p)) { fprintf(stderr, "not a replay file: %s\n", o["--file"].c_str()); return 2; }
    } else p = generate(O("--prop"), O("--profile"), O("--glue"), strtoull(O("--seed", "1").c_str(), nullptr, 10));
    if (mode == "replay") {
      run_plan(p, true);
      if (O("--quiet").empty()) fwrite(R->trace, 1, R->ntrace, stdout);
      for (int i = 0; i < R->nviol; i++) printf("RESULT %s %s\n", R->v[i].cls, jesc(R->v[i].msg).c_str());
      for (int i = 0; i < R->nknown; i++) printf("KNOWN %s\n", R->k[i].sig);
      printf("HASH %016llx steps %llu reports %llu\n", (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->reports);
      return find_class(want) >= 0 ? 1 : 0;
    }
    if (mode == "gate") { // the same seed twice, and its recording: one and the same execution
      int n = atoi(O("--count", "20").c_str());
      u64 seed = strtoull(O("--seed", "1").c_str(), nullptr, 10);
      int bad = 0;
      for (int i = 0; i < n; i++) {
        Plan q = generate(O("--prop"), O("--profile"), O("--glue"), seed + (u64)i);
        run_plan(q, false);
        u64 h = R->hash, s = R->steps, ph = R->paths_hash;
        int nv = R->nviol;
        std::string c = nv ? R->v[0].cls : "";
        bool trunc = R->nsched >= sizeof R->sched;
        Plan rq = q;
        record(rq);
        run_plan(q, false);
        if (R->hash != h || R->steps != s || R->paths_hash != ph) { bad++; printf("NONDETERMINISTIC seed %llu (second run)\n", (unsigned long long)(seed + (u64)i)); continue; }
        if (trunc) continue;
        Plan rt;
        plan_from_text(plan_to_text(rq), rt);
        run_plan(rt, false);
        if (R->hash != h || R->steps != s || R->paths_hash != ph) { bad++; printf("NONDETERMINISTIC seed %llu (replay)\n", (unsigned long long)(seed + (u64)i)); }
      }
      printf("GATE %d of %d\n", n - bad, n);
      return bad ? 2 : 0;
    }
    std::string cls = O("--class");
    run_plan(p, false);
    if (find_class({}, &cls) < 0) { fprintf(stderr, "does not reproduce\n"); return 2; }
    Plan m = minimise(p, cls, atof(O("--time", "20").c_str()));
    run_plan(m, true);
    int k = find_class({}, &cls);
    if (k < 0) { m = p; run_plan(m, true); k = find_class({}, &cls); }
    std::ofstream(O("--to")) << plan_to_text(m);
    if (k >= 0) printf("MINIMISED %s %s\n", cls.c_str(), jesc(R->v[k].msg).c_str());
    return 0;
  }
  fprintf(stderr, "usage: sim explore|replay|minimise|gate|gen ...\n");
  return 2;
}
