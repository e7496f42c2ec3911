// Driver: seeded search, gating, minimisation, replay, evidence.
#include "checks.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <signal.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <deque>

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static string ROOT, LIBDIR, TIER = "quick"; static u64 SEED = 1;
static const CheckDef* DEF;
static u64 run_seed(u64 idx) { return mix64(mix64(SEED, hashstr(DEF->id)), idx); }

struct RunOut { bool vio = false, nontriv = false; string sig, msg, sample; u64 hash = 0, sched = 0, now = 0, seams = 0, steps = 0; };
static RunOut execute() {
  core_reset(); plans_reset(); tree_reset(); HEAP_CAP = 256u << 20; NONTRIV = false; SAMPLE = "";
  RunOut o;
  try { DEF->run(); heap_check(); } catch (RunFailed&) {}
  o.vio = VIO.hit; o.sig = VIO.sig; o.msg = VIO.msg; o.nontriv = NONTRIV; o.sample = SAMPLE;
  o.hash = mix64(TRACE_HASH, hashstr(o.sig)); o.sched = SCHED_HASH; o.now = NOW; o.seams = SEAMS; o.steps = STEPS;
  return o;
}
static RunOut run_idx(u64 idx) { CH.seed(run_seed(idx)); return execute(); }
typedef vector<u32> Rec[NSTREAM];
static RunOut run_rec(const Rec& r) { CH.load(r); return execute(); }

// ---------------------------------------------------------------- child <-> parent
struct Buf { string s; size_t p = 0;
  void u(u64 x) { s.append((char*)&x, 8); } void str(const string& x) { u(x.size()); s += x; }
  u64 gu() { u64 x = 0; if (p + 8 <= s.size()) memcpy(&x, &s[p], 8); p += 8; return x; }
  string gstr() { u64 n = gu(); if (p + n > s.size()) return ""; string r = s.substr(p, n); p += n; return r; } };
static bool slurp(const string& f, string& out) { FILE* h = fopen(f.c_str(), "r"); if (!h) return false; char b[65536]; size_t n; out.clear(); while ((n = fread(b, 1, sizeof b, h)) > 0) out.append(b, n); fclose(h); return true; }
static void spew(const string& f, const string& s) { FILE* h = fopen(f.c_str(), "w"); if (!h) { fprintf(stderr, "cannot write %s\n", f.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), h); fclose(h); }

// runs fn in a forked child; returns the child's status, its output in out
static int forked(const std::function<void(Buf&)>& fn, Buf& out, unsigned secs = 120) {
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { close(fd[0]); alarm(secs); Buf b; watchdog(true); fn(b); watchdog(false); size_t o = 0; while (o < b.s.size()) { ssize_t k = write(fd[1], b.s.data() + o, b.s.size() - o); if (k <= 0) break; o += (size_t)k; } _exit(0); }
  close(fd[1]); char t[65536]; ssize_t k; out.s.clear(); out.p = 0;
  while ((k = read(fd[0], t, sizeof t)) > 0) out.s.append(t, (size_t)k);
  close(fd[0]); int st; waitpid(p, &st, 0); return st;
}
struct Finding { u64 idx; string sig, msg; u64 hash; bool wild = false; };
struct Total {
  u64 runs = 0, nontriv = 0, now = 0, seams = 0, steps = 0, rechecks = 0, known = 0;
  map<string, u64> c; std::unordered_set<u64> traces, scheds; u64 unstable = 0; set<u32> cov; map<u64, string> samples; vector<Finding> found; map<string, u64> knownhits;
};
static set<string> KNOWN;
static volatile u64* shm;           // per slot: index being run
static void chunk(Buf& b, u64 lo, u64 hi, u64 slot, double until) {
  u64 i = lo, rc = 0, un = 0, nt = 0, now = 0, seams = 0, steps = 0; vector<u64> th, sh; vector<std::pair<u64, string>> smp; vector<Finding> fs; map<string, u64> kh;
  double t0 = wall(); static const bool survey = getenv("KV_SURVEY"); watchdog(true);
  for (; i < hi; i++) {
    shm[slot] = i; alarm(120);
    RunOut o = run_idx(i);
    now += o.now; seams += o.seams; steps += o.steps; sh.push_back(o.sched);
    if (o.nontriv) { nt++; th.push_back(o.hash); if (smp.size() < 2 && (i % 7 == 0 || i < 4)) smp.push_back({i, o.sample}); }
    if (o.vio) {
      if (KNOWN.count(o.sig)) kh[o.sig]++;
      else if (survey) { bool seen = false; for (auto& f : fs) seen |= f.sig == o.sig; if (!seen) fs.push_back(Finding{i, o.sig, o.msg, o.hash}); STATS.c["vio." + o.sig]++; }
      else { fs.push_back(Finding{i, o.sig, o.msg, o.hash}); i++; break; }
    }
    if (i % 61 == 17) {             // determinism: the recorded choices give the same execution
      Rec r; for (int s = 0; s < NSTREAM; s++) r[s] = CH.rec[s];
      Stats keep = STATS; RunOut q = run_rec(r); STATS = keep; rc++;
      if (q.hash != o.hash && un++ < 2) fprintf(stderr, "HARNESS-ERROR: run %llu of %s is not deterministic\n", (unsigned long long)i, DEF->id);
    }
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    double w = wall();
    if (ru.ru_maxrss > 1200000 || w - t0 > 2.0 || w > until) { i++; break; }
  }
  alarm(0); watchdog(false);
  b.u(i); b.u(nt); b.u(now); b.u(seams); b.u(steps); b.u(rc); b.u(un);
  b.u(STATS.c.size()); for (auto& k : STATS.c) { b.str(k.first); b.u(k.second); }
  b.u(th.size()); for (u64 x : th) b.u(x);
  b.u(sh.size()); for (u64 x : sh) b.u(x);
  vector<u32> cov; cover_collect(cov); b.u(cov.size()); for (u32 x : cov) b.u(x);
  b.u(smp.size()); for (auto& s : smp) { b.u(s.first); b.str(s.second); }
  b.u(kh.size()); for (auto& k : kh) { b.str(k.first); b.u(k.second); }
  b.u(fs.size()); for (auto& f : fs) { b.u(f.idx); b.str(f.sig); b.str(f.msg); b.u(f.hash); }
}
static u64 take(Buf& b, Total& t, u64 lo) {
  u64 i = b.gu(); t.runs += i - lo; t.nontriv += b.gu(); t.now += b.gu(); t.seams += b.gu(); t.steps += b.gu(); t.rechecks += b.gu(); t.unstable += b.gu();
  for (u64 n = b.gu(); n--;) { string k = b.gstr(); t.c[k] += b.gu(); }
  for (u64 n = b.gu(); n--;) t.traces.insert(b.gu());
  for (u64 n = b.gu(); n--;) t.scheds.insert(b.gu());
  for (u64 n = b.gu(); n--;) t.cov.insert((u32)b.gu());
  for (u64 n = b.gu(); n--;) { u64 k = b.gu(); string s = b.gstr(); if (t.samples.size() < 4000) t.samples[k] = s; }
  for (u64 n = b.gu(); n--;) { string k = b.gstr(); t.knownhits[k] += b.gu(); }
  for (u64 n = b.gu(); n--;) { Finding f; f.idx = b.gu(); f.sig = b.gstr(); f.msg = b.gstr(); f.hash = b.gu(); t.found.push_back(f); }
  return i;
}
struct Kid { pid_t pid; int fd; u64 lo, hi; string data; };
static bool search(Total& t, u64 count, double until, int jobs) {
  std::deque<std::pair<u64, u64>> todo; u64 K = std::max<u64>(8, std::min<u64>(400, count / 64 + 1));
  for (u64 i = 0; i < count; i += K) todo.push_back({i, std::min(count, i + K)});
  map<int, Kid> kids; u64 limit = ~0ull; bool bad = false;
  while (true) {
    while ((int)kids.size() < jobs && !todo.empty() && !bad && wall() < until) {
      auto c = todo.front(); todo.pop_front();
      if (c.first > limit) continue;
      int slot = 0; while (kids.count(slot)) slot++;
      int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) { close(fd[0]); for (auto& k : kids) close(k.second.fd); Buf b; chunk(b, c.first, c.second, (u64)slot, until); size_t o = 0; while (o < b.s.size()) { ssize_t k = write(fd[1], b.s.data() + o, b.s.size() - o); if (k <= 0) break; o += (size_t)k; } _exit(0); }
      close(fd[1]); kids[slot] = Kid{p, fd[0], c.first, c.second, ""};
    }
    if (kids.empty()) break;
    // wait for any data
    fd_set rs; FD_ZERO(&rs); int mx = 0; for (auto& k : kids) { FD_SET(k.second.fd, &rs); mx = std::max(mx, k.second.fd); }
    if (select(mx + 1, &rs, nullptr, nullptr, nullptr) < 0) { if (errno == EINTR) continue; perror("select"); exit(2); }
    vector<int> over;
    for (auto& kv : kids) if (FD_ISSET(kv.second.fd, &rs)) { char b[65536]; ssize_t n = read(kv.second.fd, b, sizeof b); if (n > 0) kv.second.data.append(b, (size_t)n); else over.push_back(kv.first); }
    for (int s : over) {
      Kid k = kids[s]; kids.erase(s); close(k.fd); int st; waitpid(k.pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        Buf b; b.s = k.data; size_t nf = t.found.size(); u64 e = take(b, t, k.lo);
        bool hit = t.found.size() > nf && !getenv("KV_SURVEY");
        if (hit) for (size_t i = nf; i < t.found.size(); i++) limit = std::min(limit, t.found[i].idx);
        if (!hit && e < k.hi) todo.push_front({e, k.hi});
      } else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM) {
        u64 i = shm[s]; Buf b; int st2 = forked([&](Buf& o) { shm[s] = i; RunOut r = run_idx(i); o.u(r.vio); }, b);
        if (WIFSIGNALED(st2) && WTERMSIG(st2) == WTERMSIG(st)) { bool al = WTERMSIG(st) == SIGALRM; Finding f{i, al ? "hang" : "wild", al ? string("no progress: one run takes more than two minutes") : sfmt("the process running the simulation died with signal %d: the library damaged memory outside its own", WTERMSIG(st)), 0, true}; t.found.push_back(f); limit = std::min(limit, i); t.runs++; }
        else { fprintf(stderr, "HARNESS-ERROR: worker died with signal %d at run %llu, not reproducible\n", WTERMSIG(st), (unsigned long long)i); bad = true; }
      } else { fprintf(stderr, "HARNESS-ERROR: worker ended with status 0x%x at run %llu of %s\n", st, (unsigned long long)shm[s], DEF->id); bad = true; }
    }
    if (limit != ~0ull) { std::deque<std::pair<u64, u64>> n; for (auto& c : todo) if (c.first < limit) n.push_back(c); todo = n; }
  }
  return !bad;
}

// ---------------------------------------------------------------- replay files and minimisation
static RunOut attempt(const Rec& r, Rec* used = nullptr, vector<string>* text = nullptr) {
  Buf b; RunOut o;
  int st = forked([&](Buf& w) { VERBOSE = text != nullptr; RunOut x = run_rec(r); w.u(x.vio); w.str(x.sig); w.str(x.msg); w.u(x.hash); w.str(x.sample);
    for (int s = 0; s < NSTREAM; s++) w.u(CH.pos[s]);
    if (text) { w.u(TRACE_TEXT.size()); for (auto& l : TRACE_TEXT) w.str(l); } }, b);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { o.sig = "wild"; o.vio = WIFSIGNALED(st); return o; }
  o.vio = b.gu(); o.sig = b.gstr(); o.msg = b.gstr(); o.hash = b.gu(); o.sample = b.gstr();
  u64 pos[NSTREAM]; for (int s = 0; s < NSTREAM; s++) pos[s] = b.gu();
  if (used) for (int s = 0; s < NSTREAM; s++) { (*used)[s] = r[s]; if ((*used)[s].size() > pos[s]) (*used)[s].resize(pos[s]); }
  if (text) { for (u64 n = b.gu(); n--;) text->push_back(b.gstr()); }
  return o;
}
static void copy(Rec& d, const Rec& s) { for (int i = 0; i < NSTREAM; i++) d[i] = s[i]; }
static u64 nonzero(const Rec& r) { u64 n = 0; for (int s = 0; s < NSTREAM; s++) for (u32 x : r[s]) n += x != 0; return n; }
static u64 minimise(Rec& r, const string& sig, double secs) {
  double t0 = wall(); u64 tries = 0;
  auto ok = [&](Rec& c) { tries++; Rec used; RunOut o = attempt(c, &used); if (o.vio && o.sig == sig) { copy(r, used); return true; } return false; };
  auto left = [&]() { return wall() - t0 < secs; };
  { Rec c; copy(c, r); ok(c); }
  bool any = true;
  while (any && left()) {
    any = false;
    static const int order[] = {F, S, D, W};
    for (int si = 0; si < NSTREAM && left(); si++) {
      int s = order[si];
      { Rec c; copy(c, r); bool nz = false; for (u32& x : c[s]) { nz |= x != 0; x = 0; } if (nz && ok(c)) { any = true; continue; } }
      // cut the tail
      for (size_t n = r[s].size() / 2; n >= 1 && left(); n /= 2) while (r[s].size() > n && left()) { Rec c; copy(c, r); bool nz = false; for (size_t i = c[s].size() - n; i < c[s].size(); i++) nz |= c[s][i] != 0; c[s].resize(c[s].size() - n); if (!nz) { r[s].resize(c[s].size()); continue; } if (!ok(c)) break; any = true; }
      // zero blocks
      for (size_t n = std::max<size_t>(1, r[s].size() / 4); left(); n /= 2) {
        for (size_t i = 0; i < r[s].size() && left(); i += n) {
          Rec c; copy(c, r); bool nz = false; for (size_t k = i; k < std::min(c[s].size(), i + n); k++) { nz |= c[s][k] != 0; c[s][k] = 0; }
          if (nz && ok(c)) any = true;
        }
        if (n <= 1) break;
      }
      // drop blocks (removes whole operations)
      if (s == W) for (size_t n = std::max<size_t>(1, r[s].size() / 4); left(); n /= 2) {
        for (size_t i = 0; i + n <= r[s].size() && left();) { Rec c; copy(c, r); c[s].erase(c[s].begin() + (long)i, c[s].begin() + (long)(i + n)); u64 b = nonzero(r); if (nonzero(c) <= b && ok(c)) any = nonzero(r) < b ? true : any; else i += n; }
        if (n <= 1) break;
      }
      // smaller values
      for (size_t i = 0; i < r[s].size() && left(); i++) while (r[s].size() > i && r[s][i] > 1 && left()) { Rec c; copy(c, r); c[s][i] /= 2; if (!ok(c)) break; any = true; }
    }
  }
  return tries;
}
static string rec_text(const Rec& r) {
  static const char nm[] = "WSFD"; string t;
  for (int s = 0; s < NSTREAM; s++) { t += sfmt("choices %c", nm[s]); for (size_t i = 0; i < r[s].size(); i++) if (r[s][i]) t += sfmt(" %zu=%u", i, r[s][i]); t += "\n"; }
  return t;
}
static string one_line(string m) { for (auto& c : m) if (c == '\n') c = '|'; return m; }
static string SELF;
static int fresh_replay(const string& file) {
  fflush(stdout); pid_t p = fork();
  if (p == 0) { if (!freopen("/dev/null", "w", stdout)) _exit(2); unsetenv("KV_NOASLR"); execl(SELF.c_str(), SELF.c_str(), "replay", file.c_str(), LIBDIR.c_str(), ROOT.c_str(), (char*)nullptr); _exit(2); }
  int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}
// returns the path of the replay file, "" if the violation could not be reproduced
static string report(const Finding& f) {
  mkdir((ROOT + "/out").c_str(), 0755);
  string path = ROOT + "/out/" + DEF->id + "-" + sfmt("%llu-%llu", (unsigned long long)SEED, (unsigned long long)f.idx) + ".replay";
  if (f.wild) {
    spew(path, sfmt("property %s\nsig %s\nmessage %s\nseed %llu\nindex %llu\n", DEF->id, f.sig.c_str(), f.msg.c_str(), (unsigned long long)SEED, (unsigned long long)f.idx));
    return fresh_replay(path) == 1 ? path : "";
  }
  Rec r; Buf b;
  // a library that looks at memory nobody wrote (a stray va_arg, an uninitialised variable) need not act the same twice: its trace can
  // then not be repeated to the byte, but the violation can, and the replay file names the run instead of its choices
  auto by_index = [&](const char* why) -> string {
    spew(path, sfmt("property %s\nsig %s\nmessage %s\nseed %llu\nindex %llu\n# %s\n", DEF->id, f.sig.c_str(), one_line(f.msg).c_str(), (unsigned long long)SEED, (unsigned long long)f.idx, why));
    for (int k = 0; k < 3; k++) if (fresh_replay(path) == 1) { printf("  run %llu: %s\n  sig=%s  not minimised: %s\n", (unsigned long long)f.idx, f.msg.c_str(), f.sig.c_str(), why); return path; }
    fprintf(stderr, "HARNESS-ERROR: violation of %s at run %llu does not reproduce\n", DEF->id, (unsigned long long)f.idx); return "";
  };
  int st = forked([&](Buf& w) { RunOut o = run_idx(f.idx); w.u(o.hash); for (int s = 0; s < NSTREAM; s++) { w.u(CH.rec[s].size()); for (u32 x : CH.rec[s]) w.u(x); } }, b);
  if (st) return by_index("running it again in a process of its own ends differently");
  u64 h = b.gu(); for (int s = 0; s < NSTREAM; s++) { u64 n = b.gu(); r[s].resize(n); for (u64 i = 0; i < n; i++) r[s][i] = (u32)b.gu(); }
  RunOut a1 = attempt(r), a2 = attempt(r);
  if (h != f.hash || a1.hash != h || a2.hash != h) return by_index("the library's behaviour depends on memory contents nobody wrote, its trace differs from run to run");
  u64 before = nonzero(r); Rec whole; copy(whole, r);
  double secs = TIER == "quick" ? 12 : 60; if (getenv("KV_MIN_SECS")) secs = atof(getenv("KV_MIN_SECS"));
  u64 tries = minimise(r, f.sig, secs);
  vector<string> text; Rec used; RunOut o = attempt(r, &used, &text); copy(r, used);
  if (!o.vio || o.sig != f.sig) { copy(r, whole); text.clear(); o = attempt(r, &used, &text); copy(r, used); }
  if (!o.vio || o.sig != f.sig) return by_index("its choices alone do not repeat it");
  string t = sfmt("property %s\nsig %s\n", DEF->id, o.sig.c_str()); string m = one_line(o.msg);
  t += "message " + m + "\n" + sfmt("seed %llu\nindex %llu\nhash %llx\n# minimised from %llu to %llu non-default choices in %llu attempts\n", (unsigned long long)SEED, (unsigned long long)f.idx, (unsigned long long)o.hash, (unsigned long long)before, (unsigned long long)nonzero(r), (unsigned long long)tries);
  t += rec_text(r);
  t += "# schedule and fault trace\n";
  if (text.size() > 4000) { text.erase(text.begin(), text.end() - 4000); t += "# (only the last 4000 events)\n"; }
  for (auto& l : text) t += "# " + l + "\n";
  spew(path, t);
  if (fresh_replay(path) != 1) return by_index("its choices alone do not repeat it in a fresh process");
  printf("  run %llu: %s\n  sig=%s  minimised to %llu of %llu choices\n", (unsigned long long)f.idx, o.msg.c_str(), o.sig.c_str(), (unsigned long long)nonzero(r), (unsigned long long)before);
  return path;
}
static const CheckDef* find_def(const string& id) { for (auto& d : CHECKS) if (id == d.id) return &d; return nullptr; }
static int do_replay(const string& file) {
  string s; if (!slurp(file, s)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
  Rec r; string sig, msg; u64 hash = 0, idx = 0; bool havehash = false;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('\n', i); if (j == string::npos) j = s.size();
    string l = s.substr(i, j - i); i = j + 1;
    auto starts = [&](const char* p) { return l.compare(0, strlen(p), p) == 0; };
    if (starts("property ")) DEF = find_def(l.substr(9));
    else if (starts("sig ")) sig = l.substr(4);
    else if (starts("message ")) msg = l.substr(8);
    else if (starts("seed ")) SEED = strtoull(l.c_str() + 5, nullptr, 10);
    else if (starts("index ")) idx = strtoull(l.c_str() + 6, nullptr, 10);
    else if (starts("hash ")) { hash = strtoull(l.c_str() + 5, nullptr, 16); havehash = true; }
    else if (starts("choices ")) {
      static const string nm = "WSFD"; size_t st = nm.find(l[8]); if (st == string::npos) continue;
      const char* p = l.c_str() + 9;
      while (*p) { while (*p == ' ') p++; if (!*p) break; char* e; u64 k = strtoull(p, &e, 10); if (*e != '=') break; u64 v = strtoull(e + 1, &e, 10); if (r[st].size() <= k) r[st].resize(k + 1, 0); r[st][k] = (u32)v; p = e; }
    }
  }
  if (!DEF) { fprintf(stderr, "no such property in %s\n", file.c_str()); return 2; }
  if (!havehash) {
    Buf b; int st = forked([&](Buf& o) { RunOut x = run_idx(idx); o.u(x.vio); o.str(x.sig); o.str(x.msg); }, b);
    if (!WIFSIGNALED(st) && !st && b.gu()) { string g = b.gstr(), m = b.gstr(); printf("%s: %s\n", g.c_str(), m.c_str()); if (g != sig) printf("note: recorded as %s; what this library does with unwritten memory differs from run to run\n", sig.c_str()); { printf("VIOLATION property=%s replay=%s\n", DEF->id, file.c_str()); return 1; } }
    if (WIFSIGNALED(st)) { printf("the simulation dies with signal %d\nVIOLATION property=%s replay=%s\n", WTERMSIG(st), DEF->id, file.c_str()); return 1; }
    printf("not reproduced\n"); return 0;
  }
  vector<string> text; RunOut o = attempt(r, nullptr, &text);
  for (auto& l : text) printf("%s\n", l.c_str());
  if (o.vio) {
    printf("%s: %s\n", o.sig.c_str(), o.msg.c_str());
    if (o.hash != hash) printf("note: the execution differs from the recorded one (hash %llx, recorded %llx)\n", (unsigned long long)o.hash, (unsigned long long)hash);
    if (o.sig == sig) { printf("VIOLATION property=%s replay=%s\n", DEF->id, file.c_str()); return o.hash == hash ? 1 : 3; }
    return 3;
  }
  printf("not reproduced\n"); return 0;
}

// ---------------------------------------------------------------- evidence
static string js(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) r += sfmt("\\u%04x", c); else r += (char)c; } return r + "\""; }
static void evidence(const Total& t, double secs, u64 count, size_t nvio) {
  string e = "{\n";
  e += sfmt(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"wall_s\": %.2f,\n \"violations\": %zu,\n", DEF->id, TIER.c_str(), (unsigned long long)SEED, secs, nvio);
  e += " \"coverage\": {\n";
  e += sfmt("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)t.runs, t.traces.size());
  e += "  \"rule\": " + js(string("One evaluation is one simulated run decided by one seed (workload, schedule, faults, timing). ") + DEF->rule + " Two runs are distinct if their full event traces (every simulated call with its result, in order) hash differently.") + ",\n";
  e += "  \"samples\": ["; int n = 0; for (auto& s : t.samples) { if (n == 8) break; e += (n++ ? ",\n   " : "\n   ") + js(sfmt("run %llu: ", (unsigned long long)s.first) + s.second); } e += "],\n";
  e += sfmt("  \"runs_requested\": %llu,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.3f,\n  \"scheduling_points\": %llu,\n  \"library_basic_blocks_executed\": %llu,\n", (unsigned long long)count, (double)t.runs / secs * 3600, (double)t.runs / secs * 3600, (double)t.now / 1e6, (unsigned long long)t.seams, (unsigned long long)t.steps);
  e += sfmt("  \"distinct_interleavings\": %zu,\n  \"distinct_interleavings_measure\": \"hash of the sequence of fibers chosen at every scheduling point with more than one runnable fiber\",\n", t.scheds.size());
  e += sfmt("  \"library_basic_blocks_reached\": %zu,\n  \"determinism_rechecks\": %llu,\n", t.cov.size(), (unsigned long long)t.rechecks);
  e += "  \"faults_injected\": {"; n = 0; for (auto& k : t.c) if (!k.first.compare(0, 6, "fault.")) e += (n++ ? ", " : "") + js(k.first.substr(6)) + sfmt(": %llu", (unsigned long long)k.second); e += "},\n";
  e += "  \"probes\": {"; n = 0; for (auto& k : t.c) if (k.first.compare(0, 6, "fault.")) e += (n++ ? ", " : "") + js(k.first.compare(0, 6, "probe.") ? k.first : k.first.substr(6)) + sfmt(": %llu", (unsigned long long)k.second); e += "},\n";
  e += "  \"known_finding_hits\": {"; n = 0; for (auto& k : t.knownhits) e += (n++ ? ", " : "") + js(k.first) + sfmt(": %llu", (unsigned long long)k.second); e += "},\n";
  e += "  \"real_components\": " + js(DEF->real) + ",\n";
  e += "  \"stub_components\": " + js("operating system calls (files, locks, directories, clock, sleep, environment, process exit), heap allocator, stdio capture, MPI library") + "\n },\n";
  e += " \"assumptions\": [" + js("the simulated file system, locks and MPI library behave as their standards allow and no more (see DESIGN.md)") + ", " + js(DEF->note) + "]\n}\n";
  mkdir((ROOT + "/evidence").c_str(), 0755);
  spew(ROOT + "/evidence/" + DEF->id + ".json", e);
}
static void known_load(vector<std::pair<string, string>>& lines) {
  string s; if (!slurp(ROOT + "/known_findings.txt", s)) return;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('\n', i); if (j == string::npos) j = s.size(); string l = s.substr(i, j - i); i = j + 1;
    if (l.compare(0, 6, "known:")) continue;
    size_t a = l.find("property="), b = l.find("sig="); if (a == string::npos || b == string::npos) continue;
    string p = l.substr(a + 9, l.find(' ', a) - a - 9); size_t be = l.find(' ', b); string g = l.substr(b + 4, be - b - 4);
    if (p == DEF->id) { KNOWN.insert(g); lines.push_back({g, be == string::npos ? "" : l.substr(be + 1)}); }
  }
}
int main(int argc, char** argv) {
  if (!getenv("KV_NOASLR")) { setenv("KV_NOASLR", "1", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
  char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); if (sl > 0) SELF.assign(self, (size_t)sl);
  if (argc < 5) { fprintf(stderr, "usage: runner check ID LIBDIR ROOT | replay FILE LIBDIR ROOT | one ID:INDEX LIBDIR ROOT\n"); return 2; }
  string mode = argv[1], what = argv[2]; LIBDIR = argv[3]; ROOT = argv[4];
  if (getenv("VERIF_SEED")) SEED = strtoull(getenv("VERIF_SEED"), nullptr, 10);
  if (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough")) TIER = "thorough";
  core_init(LIBDIR.c_str());
  if (mode == "replay") return do_replay(what);
  u64 oneidx = 0; bool one = mode == "one";
  if (one) { size_t c = what.find(':'); oneidx = strtoull(what.c_str() + c + 1, nullptr, 10); what = what.substr(0, c); }
  DEF = find_def(what); if (!DEF) { fprintf(stderr, "no check for %s\n", what.c_str()); return 2; }
  if (one) { VERBOSE = true; watchdog(true); RunOut o = run_idx(oneidx); for (auto& l : TRACE_TEXT) printf("%s\n", l.c_str()); printf("%s %s\n%s\n", o.vio ? "VIO" : "ok", o.sig.c_str(), (o.msg + "\n" + o.sample).c_str()); return o.vio; }
  double t0 = wall();
  shm = (volatile u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs < 1) jobs = 1; if (jobs > 16) jobs = 16;
  if (getenv("KV_JOBS")) jobs = atoi(getenv("KV_JOBS"));
  u64 count = TIER == "quick" ? DEF->quick : DEF->thorough; double cap = TIER == "quick" ? 240 : 780;
  if (getenv("KV_COUNT")) count = strtoull(getenv("KV_COUNT"), nullptr, 10);
  printf("%s: seed %llu, %s, up to %llu runs\n", DEF->id, (unsigned long long)SEED, TIER.c_str(), (unsigned long long)count);
  vector<std::pair<string, string>> kl; known_load(kl);
  bool err = false;
  for (auto& k : kl) {
    Buf b; int st = forked([&](Buf& o) { DEMO = true; CH.seed(1); RunOut x = execute(); o.u(x.vio); o.str(x.sig); }, b);
    if (st == 0 && b.gu() && b.gstr() == k.first) printf("KNOWN-FINDING: property=%s %s\n", DEF->id, k.second.c_str());
    else if (st) err = true;
  }
  Total t;
  bool okay = search(t, count, t0 + cap, jobs) && !err;
  if (const char* cf = getenv("KV_COVER")) { FILE* o = fopen(cf, "a"); for (u32 x : t.cov) fprintf(o, "%u %x\n", x >> 28, x & 0xfffffff); fclose(o); }
  int rc = okay && !t.unstable ? 0 : 2; size_t nv = 0;
  if (getenv("KV_SURVEY")) {
    std::sort(t.found.begin(), t.found.end(), [](const Finding& a, const Finding& b) { return a.idx < b.idx; }); set<string> seen;
    for (auto& f : t.found) if (seen.insert(f.sig).second) printf("  %s x%llu, first at run %llu: %s\n", f.sig.c_str(), (unsigned long long)t.c["vio." + f.sig], (unsigned long long)f.idx, f.msg.c_str());
    t.found.clear();
  }
  if (!t.found.empty()) {
    std::sort(t.found.begin(), t.found.end(), [](const Finding& a, const Finding& b) { return a.idx < b.idx; });
    string p = report(t.found[0]);
    if (p.empty()) rc = 2; else { nv = 1; rc = 1; printf("VIOLATION property=%s replay=%s\n", DEF->id, p.c_str()); }
  }
  double secs = wall() - t0; evidence(t, secs, count, nv);
  printf("%s: %llu runs in %.1f s, %zu distinct non-trivial, %zu interleavings, %s\n", DEF->id, (unsigned long long)t.runs, secs, t.traces.size(), t.scheds.size(), rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "ERROR");
  return rc;
}
