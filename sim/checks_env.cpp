// C09, C10, C21, C22, C23: what calls leave behind, what they touch, running out of memory, threads, the print tool.
#include <signal.h>
#include "xops.h"

static const vector<XK> FILEK = {X_READ, X_WRITE, X_RLOCK, X_WLOCK, X_RMW, X_OPENREAD, X_RFD, X_WFD, X_RSET, X_WSET};
// a file, or a set, in some state
static void env_file(const string& path, const GenOpt& go) {
  string n = fs_norm(nullptr, path);
  switch (pickw(W, {2, 5, 1, 1, 3})) {
    case 0: break;
    case 1: { Rng r(pick(W, 1u << 20)); fs_put(n, enc_file(gen_tree(go), r, !chance(W, 1, 6))); break; }
    case 2: fs_put(n, ""); break;
    case 3: fs_put(n, garbage(1 + pick(W, 3000), pick(W, 1000))); break;
    default: { Rng r(pick(W, 1u << 20)); fs_put(n, enc_file(gen_tree(go), r)); damage_file(n, true, true); break; }
  }
}
// rewrites a stored set file, checksum and all, with another structure
static void odd_structure(const string& f) {
  string b; if (!fs_get(f, b)) return; Dec d = dec_file(b); if (!d.ok) return;
  Rng r(pick(W, 1u << 20)); Tree t = d.t; string what; u32 k = pick(W, 7);
  auto drop = [&](Tree& x, const char* key) { x.kids.erase(key); what = sfmt("without %s", key); };
  auto odd = [&](Tree& x, const char* key) { x.kids.erase(key); static const char* o[] = {"x", "", "-1", "1e9", "99999999999999999999"}; x[key][o[r.below(4)]]; what = sfmt("odd %s", key); };
  Tree* rk = nullptr; { auto i = t.kids.find("RANK"); if (i != t.kids.end() && !i->second.kids.empty()) { auto j = i->second.kids.begin(); std::advance(j, (long)r.below(i->second.kids.size())); rk = &j->second; } }
  switch (k) {
    case 0: drop(t, "LEVEL"); break;
    case 1: drop(t, "RANKS"); break;
    case 2: drop(t, "RANK"); break;
    case 3: if (rk) drop(*rk, "FILE"); break;
    case 4: if (rk) drop(*rk, "OFFSET"); break;
    case 5: odd(t, "RANKS"); break;
    default: if (rk) rk->kids.clear(); what = "emptied rank"; break;
  }
  fs_put(f, enc_file(t, r), 0644); note("structure of " + f + ": " + what); COUNT("fault.odd_structure");
}
static void env_set(const string& prefix) {
  u32 how = pickw(W, {2, 5, 4, 3}); if (how == 0) return;
  int n = (int)skewed(W, 1, 9); Rng r(pick(W, 1u << 16)); auto files = build_set(prefix, rank_data(n), r, chance(W, 1, 2));
  if (how == 2) damage_file(files[pick(W, (u32)files.size())], true, true);
  if (how == 3) odd_structure(files[pick(W, (u32)files.size())]);
}

// ---------------------------------------------------------------- C09
static void no_leftovers(const Census& a, Proc* p, bool mem, const char* what, int rc, const set<int>& handed = {}) {
  Census b = census(p); string d = census_diff(a, b, p, mem, handed);
  if (!d.empty()) violation("leak", sfmt("after %s (%s): %s", what, rc == KV_OK ? "success" : "failure", d.c_str()));
  if (handed.empty()) { string w; if (holds_lock(p, &w)) violation("leak", sfmt("after %s (%s) the process still holds a lock on %s", what, rc == KV_OK ? "success" : "failure", w.c_str())); }
}
static void c09_mpi() {
  int n = pick_ranks(9); Job* j = make_job(n, "rank"); j->segsize = pick_seg();
  vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m); string prefix = pick_prefix();
  vector<Tree> v = rank_data(n);
  env_set(prefix);
  u32 nops = range(W, 1, 3); vector<u32> ops; vector<Step> st(nops); vector<vector<Tree>> pre(nops);
  for (u32 i = 0; i < nops; i++) {
    ops.push_back(pickw(W, {8, 10, 4, 4, 2, n > 1 ? 4u : 0u})); GenOpt go;
    if (ops[i] == 1) pre[i] = pres_of(n);
    if (ops[i] == 2) gen_exchange(st[i], n);
    if (ops[i] == 3) gen_shift(st[i], n, go, true);
    if (ops[i] == 5) { st[i].a = (int)pick(W, (u32)n); st[i].b = (st[i].a + 1 + (int)pick(W, (u32)n - 1)) % n; st[i].t = gen_tree(go); st[i].pre = gen_small(); }
    if (ops[i] == 4) { st[i].a = (int)pick(W, (u32)n); st[i].t = gen_tree(go); for (int r = 0; r < n; r++) st[i].pres.push_back(gen_small()); }
  }
  if (chance(W, 2, 3)) plans_for(j, chance(W, 1, 3) ? (HARD | SOFT | DIRF) : (M(FK_EIO_RW) | M(FK_OPEN) | M(FK_ACCESS) | M(FK_LSEEK) | M(FK_CLOSE) | M(FK_FSYNC) | M(FK_ENOSPC)), true);
  vector<Verdicts> vd(nops); for (auto& x : vd) x.rc.assign((size_t)n, -100);
  static const char* nm[] = {"kvtree_write_gather", "kvtree_read_scatter", "kvtree_exchange", "kvtree_sendrecv", "kvtree_bcast", "kvtree_send/kvtree_recv"};
  run_ranks(j, m, [&](int me) {
    Proc* p = CUR->proc;
    for (u32 i = 0; i < nops; i++) {
      Census a = census(p); int rc = KV_OK; vector<Tree> got((size_t)n);
      switch (ops[i]) {
        case 0: gather_body(prefix, v, me, c, vd[i]); rc = vd[i].rc[(size_t)me]; break;
        case 1: scatter_body(prefix, pre[i][(size_t)me], me, c, vd[i], got); rc = vd[i].rc[(size_t)me]; break;
        case 2: do_exchange(st[i], me, c); break;
        case 3: do_shift(st[i], me, c); break;
        case 4: do_bcast(st[i], me, c); break;
        default: if (me == st[i].a) do_send(st[i], c); if (me == st[i].b) do_recv(st[i], c);
      }
      no_leftovers(a, p, true, sfmt("%s on rank %d of %d", nm[ops[i]], me, n).c_str(), rc);
    }
  }, "collective calls");
  check_exits();
  NONTRIV = true; SAMPLE = sfmt("%d ranks, %u collective calls, first %s, %llu hard faults", n, nops, nm[ops[0]], (unsigned long long)fired_of(j));
}
void run_c09() {
  base_setup(); HEAP_CAP = 24u << 20;
  if (chance(W, 1, 3)) { c09_mpi(); return; }
  GenOpt go; if (chance(W, 1, 20)) go.whuge = 1;
  string path = pick_prefix(), prefix = "/w/set";
  env_file(path, go); env_set(prefix);
  if (chance(W, 1, 8)) FS.capacity = 100 + pick(W, 20000);
  FaultPlan* pl = chance(W, 1, 6) ? nullptr : gen_plan(HARD | SOFT | LOCKF | DIRF, true);
  if (pl && pl->rate < 100 && chance(W, 1, 2)) pl->rate = 250;
  vector<XK> kinds = FILEK; for (XK k : {X_RSET, X_PERSIST, X_PRINT, X_SCRIPT, X_TOOL, X_BAD}) kinds.push_back(k);
  u32 nops = range(W, 1, 4); vector<XOp> ops; for (u32 i = 0; i < nops; i++) ops.push_back(gen_xop(kinds, path, prefix, go));
  string desc;
  in_proc("user", [&]() {
    Proc* p = CUR->proc;
    fs_put("/w/app", "x"); bool z = FD0_FREE; if (chance(W, 1, 2)) FD0_FREE = false; fs_app_open(p, "/w/app"); FD0_FREE = z;
    for (XOp& x : ops) {
      if (pl && chance(W, 1, 3)) pl->clear_sticky();
      Census a = census(p);
      x.prep();
      Census b = census(p);
      x.go();
      set<int> h; if (x.handed) h.insert(x.fd);
      no_leftovers(b, p, false, x.show().c_str(), x.rc, h);
      x.post();
      no_leftovers(a, p, true, x.show().c_str(), x.rc);
      desc += string(desc.empty() ? "" : ", ") + XNAME[x.k] + (x.ok ? " ok" : " fail");
      COUNT(x.ok ? "probe.c09_success" : "probe.c09_failure");
    }
  }, pl);
  check_exits();
  NONTRIV = true; SAMPLE = desc + sfmt(", %llu hard faults", pl ? (unsigned long long)pl->fired : 0ull);
}

// ---------------------------------------------------------------- C10
static bool numbered_part(const string& base, const string& f) {   // base.L.R
  if (f.size() <= base.size() + 3 || f.compare(0, base.size(), base) || f[base.size()] != '.') return false;
  string s = f.substr(base.size() + 1); size_t d = s.find('.'); long a, b;
  return d != string::npos && parse_int(s.substr(0, d), a) && parse_int(s.substr(d + 1), b);
}
struct Snap { map<string, std::pair<string, std::pair<int, u32>>> f; };
static Snap snap() { Snap s; for (auto& kv : FS.names) { string b; if (kv.second->dir) b = "(dir)"; else fs_get(kv.first, b); s.f[kv.first] = {b, {kv.second->id, (u32)kv.second->mode}}; } return s; }
// what changed between two snapshots must be covered by the call
static void judge_change(const Snap& a, const Snap& b, const std::function<bool(const string&)>& mine, bool reads, bool locked, mode_t um, const string& what) {
  for (auto& kv : a.f) {
    auto i = b.f.find(kv.first);
    bool m = mine(kv.first);
    if (i == b.f.end()) { if (!m || reads) violation("stray-change", sfmt("%s removed %s", what.c_str(), kv.first.c_str())); continue; }
    if (i->second == kv.second) continue;
    if (!m) violation("stray-change", sfmt("%s changed %s, which it was not asked to touch", what.c_str(), kv.first.c_str()));
    if (reads) violation("stray-change", sfmt("%s, which only reads, changed %s", what.c_str(), kv.first.c_str()));
    if (i->second.second.first == kv.second.second.first && i->second.second.second != kv.second.second.second) violation("mode", sfmt("%s changed the mode of %s from %o to %o", what.c_str(), kv.first.c_str(), kv.second.second.second, i->second.second.second));
  }
  for (auto& kv : b.f) if (!a.f.count(kv.first)) {
    if (!mine(kv.first)) violation("stray-change", sfmt("%s created %s", what.c_str(), kv.first.c_str()));
    if (reads && !(locked && kv.second.first.empty())) violation("stray-change", sfmt("%s, which only reads, created %s", what.c_str(), kv.first.c_str()));
    if (kv.second.second.second != (0666u & ~um)) violation("mode", sfmt("%s created %s with mode %o, the umask %o asks for %o", what.c_str(), kv.first.c_str(), kv.second.second.second, um, 0666u & ~um));
    COUNT("probe.created_file_mode");
  }
}
static void judge_touches(const std::function<bool(const string&)>& mine, const string& dir, bool reads, bool locked, const string& what) {
  for (const Touch& t : FS.touches) {
    if (t.what == "access" || t.what == "stat" || t.what == "opendir") continue;
    if (t.path.empty()) continue;               // judged as a foreign descriptor
    if (!mine(t.path)) {
      if (t.what == "open" && t.path == dir && (t.flags & O_ACCMODE) == O_RDONLY && !(t.flags & (O_CREAT | O_TRUNC))) continue;
      violation("stray-touch", sfmt("%s: %s of %s, which it was not asked to touch", what.c_str(), t.what.c_str(), t.path.c_str()));
    }
    if (!reads) continue;
    bool w = t.what == "write" || t.what == "ftruncate" || t.what == "truncate" || t.what == "unlink" || t.what == "rename" || t.what == "mkdir" || t.what == "chmod";
    if (t.what == "open" && (t.flags & O_TRUNC)) w = true;
    if (t.what == "open" && (t.flags & O_CREAT) && !locked) w = true;
    if (w) violation("stray-touch", sfmt("%s, which only reads: %s of %s", what.c_str(), t.what.c_str(), t.path.c_str()));
  }
}
static void judge_foreign(const string& what) { if (FS.foreign) violation("foreign-descriptor", what + ": " + FS.foreign_msg); }
struct ProcEnv { mode_t um; string cwd; map<string, string> env; map<int, void*> sigs; u64 sigmask; unsigned alarm; map<int, std::pair<int, off_t>> app; };
static ProcEnv penv(Proc* p) { ProcEnv e; e.um = p->umask; e.cwd = p->cwd; e.env = p->env; e.sigs = p->sigs; e.sigmask = p->sigmask; e.alarm = p->alarm; for (int fd : p->appfds) { auto i = p->fds.find(fd); if (i != p->fds.end()) e.app[fd] = std::make_pair(i->second->id, (off_t)i->second->off); } return e; }
static void judge_env(const ProcEnv& a, Proc* p, const string& what) {
  ProcEnv b = penv(p);
  if (a.um != b.um) violation("environment", sfmt("%s changed the umask from %o to %o", what.c_str(), a.um, b.um));
  if (a.cwd != b.cwd) violation("environment", sfmt("%s changed the working directory to %s", what.c_str(), b.cwd.c_str()));
  if (a.env != b.env) violation("environment", sfmt("%s changed the environment", what.c_str()));
  if (a.sigs != b.sigs) violation("environment", sfmt("%s changed how the process handles a signal", what.c_str()));
  if (a.sigmask != b.sigmask || a.alarm != b.alarm) violation("environment", sfmt("%s changed the signal mask or the alarm of the process", what.c_str()));
  if (a.app != b.app) violation("foreign-descriptor", sfmt("%s closed or moved a descriptor of the application", what.c_str()));
}
static void app_signals(Proc* p) { p->sigs[SIGINT] = (void*)0x1000; p->sigs[SIGALRM] = (void*)0x2000; p->sigmask = 1ull << (SIGUSR1 - 1); p->alarm = 600; }
static mode_t some_umask() { static const mode_t u[] = {022, 0, 077, 027, 002, 0177, 0133, 0666}; return u[pick(W, 8)]; }
static string dir_of(const string& p) { size_t s = p.rfind('/'); return s == 0 || s == string::npos ? "/" : p.substr(0, s); }
static void c10_mpi() {
  int n = pick_ranks(9); Job* j = make_job(n, "rank"); j->segsize = pick_seg();
  vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m); string prefix = odd_prefix(), root = fs_norm(nullptr, prefix);
  fs_mkdir("/w/sub");
  vector<Tree> v = rank_data(n); Rng r(pick(W, 1u << 16)); put_neighbours(prefix, r, n);
  bool write = chance(W, 1, 2);
  if (!write || chance(W, 1, 2)) { auto files = build_set(prefix, rank_data(write ? (int)skewed(W, 1, 9) : n), r, chance(W, 1, 2)); if (chance(W, 1, 4)) damage_file(files[pick(W, (u32)files.size())], true, true); }
  if (chance(W, 1, 2)) plans_for(j, HARD | SOFT, true);
  mode_t um = some_umask();
  for (Proc* p : j->procs) { p->umask = um; fs_put(sfmt("/w/app%d", p->id), "x"); fs_app_open(p, sfmt("/w/app%d", p->id)); p->env["HOME"] = "/root"; app_signals(p); }
  vector<Tree> pre = pres_of(n), got((size_t)n); Verdicts vd; vd.rc.assign((size_t)n, -100);
  auto mine = [&](const string& f) { return f == root || numbered_part(root, f); };
  Snap a = snap(); FS.audit = true;
  run_ranks(j, m, [&](int me) {
    ProcEnv e = penv(CUR->proc);
    if (write) gather_body(prefix, v, me, c, vd); else scatter_body(prefix, pre[(size_t)me], me, c, vd, got);
    judge_env(e, CUR->proc, sfmt("rank %d's %s", me, write ? "gather write" : "scatter read"));
  }, write ? "gather write" : "scatter read");
  FS.audit = false; check_exits();
  string what = write ? "kvtree_write_gather(" + prefix + ")" : "kvtree_read_scatter(" + prefix + ")";
  judge_foreign(what); judge_touches(mine, dir_of(root), !write, false, what); judge_change(a, snap(), mine, !write, false, um, what);
  NONTRIV = true; SAMPLE = sfmt("%d ranks, %s, umask %o: %s", n, what.c_str(), um, vd.rc[0] == KV_OK ? "success" : "failure");
}
void run_c10() {
  base_setup(); HEAP_CAP = 24u << 20;
  if (chance(W, 1, 4)) { c10_mpi(); return; }
  GenOpt go; fs_mkdir("/w/sub");
  string path = chance(W, 1, 2) ? pick_prefix() : odd_prefix(), prefix = odd_prefix(); Rng r(pick(W, 1u << 16));
  env_file(path, go); env_set(prefix);
  put_neighbours(path, r, 3); put_neighbours(prefix, r, 3);
  { string n = fs_norm(nullptr, path); for (const char* s : {".tmp", "~", ".lock", ".bak", ".new", ".swp"}) if (r.below(3) == 0) fs_put(n + s, enc_file(kv("neighbour", s), r)); }
  if (chance(W, 1, 8)) FS.capacity = FS.capacity == ~0ull ? 100000 + pick(W, 20000) : FS.capacity;
  FaultPlan* pl = chance(W, 1, 5) ? nullptr : gen_plan(HARD | SOFT | LOCKF | DIRF, true);
  if (pl && pl->rate < 100 && chance(W, 1, 2)) pl->rate = 250;
  vector<XK> kinds = FILEK; kinds.push_back(X_TOOL); kinds.push_back(X_PERSIST);
  u32 nops = range(W, 1, 4); vector<XOp> ops; for (u32 i = 0; i < nops; i++) ops.push_back(gen_xop(kinds, path, prefix, go));
  mode_t um = some_umask(); string desc;
  // files of the application, and descriptors it holds
  auto files = fs_list("/w"); vector<string> plain; for (auto& f : files) { auto i = fs_ino(f); if (i && !i->dir) plain.push_back(f); }
  u32 napp = pick(W, 5); vector<string> apps; for (u32 i = 0; i < napp && !plain.empty(); i++) apps.push_back(plain[r.below(plain.size())]);
  in_proc("user", [&]() {
    Proc* p = CUR->proc; p->umask = um; p->env["HOME"] = "/root"; app_signals(p);
    if (chance(W, 1, 3)) { p->cwd = "/w/sub"; }
    for (auto& f : apps) if (fs_exists(f)) fs_app_open(p, f);
    for (XOp& x : ops) {
      if (pl && chance(W, 1, 3)) pl->clear_sticky();
      if (chance(W, 1, 5)) { um = some_umask(); p->umask = um; }       // the application changes its mind
      if (chance(W, 1, 12)) p->cwd = p->cwd == "/w" ? "/w/sub" : "/w";
      string n = fs_norm(p, x.path);
      auto mine = [&](const string& f) { return f == n || (x.set() && numbered_part(n, f)); };
      bool locked = x.k == X_RLOCK || x.k == X_OPENREAD;
      x.prep();
      Snap a = snap(); ProcEnv e = penv(p); FS.touches.clear(); FS.audit = true;
      x.go();
      FS.audit = false;
      string what = x.show();
      judge_foreign(what); judge_env(e, p, what); judge_touches(mine, dir_of(n), !x.writes(), locked, what); judge_change(a, snap(), mine, !x.writes(), locked, um, what);
      x.post();
      desc += string(desc.empty() ? "" : ", ") + what + (x.ok ? " ok" : " fail");
      COUNT(x.ok ? "probe.c10_success" : "probe.c10_failure");
    }
  }, pl);
  check_exits();
  NONTRIV = true; SAMPLE = desc + sfmt(", umask %o, %llu hard faults", um, pl ? (unsigned long long)pl->fired : 0ull);
}

// ---------------------------------------------------------------- C21
struct FsKeep { u32 seed, lat; bool fd0; FsKeep() : seed(FS.readdir_seed), lat(FS.maxlat), fd0(FD0_FREE) {} void restart() { fs_reset(); FS.readdir_seed = seed; FS.maxlat = lat; FD0_FREE = fd0; } };
static bool clean_exit(Proc* p, const string& what) {
  if (!p->called_exit) return false;
  if (p->status == 0) violation("silent-exit", sfmt("%s: out of memory, the process ended with status 0", what.c_str()));
  if (p->err.empty()) violation("silent-exit", sfmt("%s: out of memory, the process ended without a message on standard error", what.c_str()));
  COUNT("probe.oom_abort");
  return true;
}
static void c21_mpi() {
  int n = pick_ranks(5); vector<Tree> v = rank_data(n); string prefix = pick_prefix();
  u32 op = pickw(W, {3, 3, 2, 2, 2, 1}); Rng r(pick(W, 1u << 16)); bool deep = chance(W, 1, 2); unsigned long seg = pick_seg();
  GenOpt go; Step st; vector<Tree> pre = pres_of(n);
  if (op == 2) gen_exchange(st, n);
  if (op == 3) gen_shift(st, n, go, true);
  if (op == 4) { st.a = (int)pick(W, (u32)n); st.t = gen_tree(go); for (int i = 0; i < n; i++) st.pres.push_back(gen_small()); }
  if (op == 5) { if (n < 2) n = 2; st.a = 0; st.b = 1; st.t = gen_tree(go); st.pre = gen_small(); }
  if (op == 1) { Rng q = r; build_set(prefix, v, q, deep); }
  int who = (int)pick(W, (u32)n); bool sticky = chance(W, 1, 4);
  FsKeep keep; Snap files = snap();
  static const char* nm[] = {"kvtree_write_gather", "kvtree_read_scatter", "kvtree_exchange", "kvtree_sendrecv", "kvtree_bcast", "kvtree_send/kvtree_recv"};
  Verdicts vd; vector<Tree> got;
  auto round = [&](long failat) -> Job* {
    Job* j = make_job(n, failat < 0 ? "rank" : "oom"); j->segsize = seg; vector<int> m; for (int i = 0; i < n; i++) m.push_back(i);
    MPI_Comm c = mpi_make_comm(j, m); vd = Verdicts(); vd.rc.assign((size_t)n, -100); got.assign((size_t)n, Tree());
    if (failat >= 0) { Proc* p = j->procs[(size_t)who]; p->alloc_fail_at = failat; p->alloc_fail_sticky = sticky; }
    run_ranks(j, m, [&](int me) {
      switch (op) {
        case 0: gather_body(prefix, v, me, c, vd); break;
        case 1: scatter_body(prefix, pre[(size_t)me], me, c, vd, got); break;
        case 2: do_exchange(st, me, c); break;
        case 3: do_shift(st, me, c); break;
        case 4: do_bcast(st, me, c); break;
        default: if (me == st.a) do_send(st, c); if (me == st.b) do_recv(st, c); break;
      }
    }, nm[op]);
    return j;
  };
  Job* j1 = round(-1); check_exits(); long total = j1->procs[(size_t)who]->alloc_no;
  if (total == 0) return;
  keep.restart(); for (auto& kv : files.f) if (kv.second.first == "(dir)") fs_mkdir(kv.first); else fs_put(kv.first, kv.second.first, (mode_t)kv.second.second.second);
  long k = (long)pick(F, (u32)total);
  Job* j2 = round(k);
  string what = sfmt("%s, allocation %ld of %ld on rank %d of %d", nm[op], k + 1, total, who, n);
  bool exited = false; for (Proc* p : j2->procs) exited |= clean_exit(p, what);
  if (j2->procs[(size_t)who]->allocs_failed == 0) { COUNT("probe.oom_not_reached"); return; }
  bool ok = false; for (int x : vd.rc) ok |= x == KV_OK;
  if (op == 0 && ok && !exited) set_must_hold(prefix, v, false, "false-success", what + ": the gather write reported success");
  if (op == 1) for (int i = 0; i < n; i++) if (vd.rc[(size_t)i] == KV_OK && got[(size_t)i] != tunion(pre[(size_t)i], v[(size_t)i])) violation("wrong-result", sfmt("%s: the scatter read succeeds but rank %d did not receive exactly its stored tree: %s", what.c_str(), i, tdiff(tunion(pre[(size_t)i], v[(size_t)i]), got[(size_t)i]).c_str()));
  if (!exited) COUNT("probe.oom_survived");
  NONTRIV = true; SAMPLE = what + (exited ? ": aborted" : ok ? ": success" : ": went on");
}
void run_c21() {
  base_setup(); HEAP_CAP = 24u << 20;
  if (chance(W, 1, 4)) { c21_mpi(); return; }
  GenOpt go; go.whuge = 0; string path = pick_prefix(), prefix = "/w/set";
  vector<XK> kinds = FILEK; for (XK k : {X_PERSIST, X_SCRIPT, X_SCRIPT, X_SCRIPT, X_TOOL, X_RSET}) kinds.push_back(k);
  XOp x = gen_xop(kinds, path, prefix, go);
  if (x.reads()) { Rng r(pick(W, 1u << 16)); if (x.k == X_RSET) { int n = (int)skewed(W, 1, 9); x.t = rank_tree(rank_data(n)); vector<Tree> v; for (int i = 0; i < n; i++) v.push_back(x.t[sfmt("%d", i)]); build_set(prefix, v, r, false); } else { x.t = gen_tree(go); fs_put(fs_norm(nullptr, path), enc_file(x.t, r)); } }
  else if (x.k == X_RMW || (x.writes() && !x.set() && chance(W, 1, 2))) { Rng r(pick(W, 1u << 16)); fs_put(fs_norm(nullptr, path), enc_file(gen_tree(go), r)); }
  string n = fs_norm(nullptr, x.path), before; bool had = fs_get(n, before); Snap files = snap(); FsKeep keep;
  XOp y = x; long total = 0; bool sticky = chance(W, 1, 4);
  in_proc("user", [&]() { Proc* p = CUR->proc; y.prep(); long a = p->alloc_no; y.go(); total = p->alloc_no - a; y.post(); });
  check_exits();
  string after; bool has = fs_get(n, after);
  if (total == 0) { SAMPLE = x.show() + " allocates nothing"; return; }
  keep.restart(); for (auto& kv : files.f) if (kv.second.first == "(dir)") fs_mkdir(kv.first); else fs_put(kv.first, kv.second.first, (mode_t)kv.second.second.second);
  long k = (long)pick(F, (u32)std::min<long>(total, 1 << 20));
  if (chance(F, 1, 3)) k = total - 1 - k % std::min<long>(total, 12);
  XOp z = x;
  Proc* p = in_proc("oom", [&]() { Proc* p = CUR->proc; z.prep(); p->alloc_fail_at = p->alloc_no + k; p->alloc_fail_sticky = sticky; z.go(); p->alloc_fail_at = -1; p->alloc_fail_sticky = false; z.post(); });
  string what = sfmt("%s, allocation %ld of %ld%s", x.show().c_str(), k + 1, total, sticky ? " and all later ones" : "");
  if (p->allocs_failed == 0) { COUNT("probe.oom_not_reached"); return; }
  bool ex = clean_exit(p, what); string verdict = ex ? "aborted" : "?";
  if (!ex) {
    COUNT("probe.oom_survived");
    if (x.k == X_SCRIPT) {
      verdict = "completed";
      for (size_t i = 0; i < y.steps.size(); i++) {
        if (y.steps[i].ok && !z.steps[i].ok) { verdict = "reported failure"; break; }
        if (y.steps[i].data != z.steps[i].data || y.steps[i].ok != z.steps[i].ok) violation("wrong-result", sfmt("%s: step %zu gives %s instead of %s", what.c_str(), i, z.steps[i].data.c_str(), y.steps[i].data.c_str()));
      }
      if (verdict == "completed" && y.out != z.out) violation("wrong-result", sfmt("%s: the trees differ from those built without the failure", what.c_str()));
    } else if (x.k == X_PERSIST) {
      if (z.ok) { Dec d = dec_file(z.persisted); if (!d.ok || d.t != x.t) violation("wrong-result", sfmt("%s: success, but the buffer does not hold the tree: %s", what.c_str(), d.ok ? tdiff(x.t, d.t).c_str() : d.why.c_str())); }
      verdict = z.ok ? "success" : "failure";
    } else if (x.k == X_TOOL) {
      if (z.ok && y.out != z.out) violation("wrong-result", sfmt("%s: status 0, but the output differs from that without the failure", what.c_str()));
      verdict = z.ok ? "success" : "failure";
    } else if (z.ok) {
      verdict = "success";
      if (x.reads() || x.k == X_RMW) if (z.got != y.got) violation("wrong-result", sfmt("%s: success with other data: %s", what.c_str(), tdiff(y.got, z.got).c_str()));
      if (x.writes() && !x.set()) { string b; bool h = fs_get(n, b); Dec d = dec_file(b); if (!h || !d.ok || d.t != x.t) violation("wrong-result", sfmt("%s: success, but the file does not hold the tree", what.c_str())); }
      if (x.k == X_WSET) { SetWalk w = walk_set(prefix); if (!w.ok) violation("wrong-result", sfmt("%s: success, but the set is not whole: %s", what.c_str(), w.why.c_str())); Tree all; for (auto& q : w.ranks) all[sfmt("%d", q.first)] = q.second; if (all != x.t) violation("wrong-result", sfmt("%s: success, but the set holds other data: %s", what.c_str(), tdiff(x.t, all).c_str())); }
    } else {
      verdict = "failure";
      if (x.k == X_RMW && z.rc == KV_OK && z.got != y.got) violation("wrong-result", sfmt("%s: the read half succeeded with other data", what.c_str()));
    }
  }
  // files are old, new, or unreadable; never something else
  if (x.files() && !x.set()) {
    string b; bool h = fs_get(n, b);
    if (x.reads()) { if (h != had && !(h && b.empty())) violation("file", sfmt("%s: the file %s", what.c_str(), h ? "appeared" : "is gone")); if (had && b != before) violation("file", sfmt("%s: a read changed the file", what.c_str())); }
    else if (h && !b.empty() && !(had && b == before) && !(has && b == after)) { Dec d = dec_file(b); Dec o = dec_file(before); if (d.ok && d.t != x.t && !(had && o.ok && d.t == o.t)) violation("file", sfmt("%s: the file holds neither the old nor the new tree", what.c_str())); COUNT("probe.oom_torn_file"); }
  }
  if (x.k == X_WSET && (ex || !z.ok)) { Rd r; in_proc("reader", [&]() { r = read_set(prefix); }); if (r.rc == KV_OK && r.t != x.t) violation("file", sfmt("%s: what was left of the set reads back as other data", what.c_str())); }
  for (auto& kv : files.f) if (kv.first != n && !(x.k == X_WSET && numbered_part(n, kv.first))) { string b; if (kv.second.first != "(dir)" && (!fs_get(kv.first, b) || b != kv.second.first)) violation("file", sfmt("%s: %s changed", what.c_str(), kv.first.c_str())); }
  NONTRIV = true; SAMPLE = what + ": " + verdict;
}

// ---------------------------------------------------------------- C22
void run_c22() {
  base_setup();
  GenOpt go; u32 nt = range(W, 2, 4);
  bool focus = chance(W, 1, 3); SCRIPT_FOCUS.clear(); SCRIPT_ELEM = true; if (focus) pick_focus(); DUMP_QUIET = focus || chance(W, 1, 2);
  bool sep = chance(W, 1, 2);
  vector<vector<XOp>> prog(nt); map<string, std::pair<string, mode_t>> files;
  string epf; bool use_epf = chance(W, 1, 2); if (use_epf) { static const char* e[] = {"1", "2", "3", "8192"}; epf = e[pick(W, 4)]; }
  for (u32 t = 0; t < nt; t++) {
    string d = sep ? sfmt("/w/t%u", t) : "/w"; if (sep) fs_mkdir(d);
    string path = d + sfmt("/file%u", t), prefix = d + sfmt("/set%u", t);
    switch (pick(W, 4)) { case 0: break; case 1: fs_put(path, garbage(1 + pick(W, 600), pick(W, 1000))); break; default: { Rng r(pick(W, 1u << 20)); fs_put(path, enc_file(gen_tree(go), r)); } }
    if (chance(W, 1, 2)) { Rng r(pick(W, 1u << 20)); build_set(prefix, rank_data((int)skewed(W, 1, 9)), r, false); }
    vector<XK> kinds = FILEK; for (int i = 0; i < 8; i++) kinds.push_back(X_SCRIPT);
    kinds.push_back(X_PERSIST);
    if (focus) { kinds.clear(); kinds.push_back(X_SCRIPT); }
    u32 n = focus ? 1 : range(W, 1, 4);
    for (u32 i = 0; i < n; i++) { XOp x = gen_xop(kinds, path, prefix, go); x.use_epf = false; prog[t].push_back(x); }
  }
  mode_t um = some_umask(); u32 soft = pickw(W, {2, 1, 1}); FaultPlan* pl = soft == 1 ? gen_plan(SOFT, false) : nullptr;
  // transient trouble of each thread's own, which must not use up the patience of the calls of another
  auto own = [&](Fiber* f) { if (soft == 2) { FaultPlan* q = transient_plan(); if (chance(W, 1, 2)) q->rate = 700; f->plan = q; } };
  Snap s0 = snap(); FsKeep keep;
  auto again = [&]() { keep.restart(); for (auto& kv : s0.f) if (kv.second.first == "(dir)") fs_mkdir(kv.first); else fs_put(kv.first, kv.second.first, (mode_t)kv.second.second.second); };
  auto setup = [&](Proc* p) { p->umask = um; p->plan = pl; if (use_epf) p->env["KVTREE_ENTRIES_PER_FILE"] = epf; };
  auto body = [](vector<XOp>* ops) { for (XOp& x : *ops) { x.prep(); x.go(); x.post(); } };
  vector<vector<XOp>> alone = prog, together = prog;
  // each alone
  for (u32 t = 0; t < nt; t++) { Proc* p = new_proc(sfmt("alone%u", t)); setup(p); auto* ops = &alone[t]; own(spawn(p, [=]() { body(ops); })); run_all("one thread"); if (p->umask != um) violation("umask", sfmt("the umask is %o instead of %o after the calls", p->umask, um)); }
  check_exits();
  Snap s1 = snap();
  // and all together
  again();
  static const u32 mean[] = {40, 8, 3, 200, 1500}; BB_PREEMPT = true; BB_MEAN = mean[pick(W, focus ? 4 : 5)];
  Proc* p = new_proc("threads"); setup(p);
  for (u32 t = 0; t < nt; t++) { auto* ops = &together[t]; own(spawn(p, [=]() { body(ops); })); }
  run_all("threads");
  BB_PREEMPT = false; SCRIPT_FOCUS.clear(); SCRIPT_ELEM = false; DUMP_QUIET = false;
  check_exits();
  for (u32 t = 0; t < nt; t++) for (size_t i = 0; i < alone[t].size(); i++) if (alone[t][i].out != together[t][i].out) {
    const string &a = alone[t][i].out, &b = together[t][i].out; size_t x = 0; while (x < a.size() && x < b.size() && a[x] == b[x]) x++; size_t from = x > 60 ? x - 60 : 0;
    violation("interference", sfmt("%s in thread %u gives another result when other threads work on other trees and files: ...%s instead of ...%s", alone[t][i].show().c_str(), t, b.substr(from, 160).c_str(), a.substr(from, 160).c_str()));
  }
  if (p->umask_bad) violation("umask", "a call changed the umask of the process while other threads were running");
  if (p->umask != um) violation("umask", sfmt("the umask is %o instead of %o after the calls", p->umask, um));
  Snap s2 = snap();
  for (auto& kv : s1.f) if (!s2.f.count(kv.first)) violation("interference", sfmt("%s, which exists when the threads run one after another, does not exist when they run together", kv.first.c_str()));
  for (auto& kv : s2.f) { auto i = s1.f.find(kv.first); if (i == s1.f.end()) violation("interference", sfmt("%s, which exists when the threads run together, does not exist when they run one after another", kv.first.c_str())); if (i->second.first != kv.second.first || i->second.second.second != kv.second.second.second) violation("interference", sfmt("%s differs from what the threads write one after another", kv.first.c_str())); }
  string d; for (auto& q : together) { d += d.empty() ? "" : " || "; for (auto& x : q) d += string(XNAME[x.k]) + "; "; }
  NONTRIV = true; SAMPLE = sfmt("%u threads, preempted every %u blocks or so: ", nt, mean[0] ? BB_MEAN : 0) + d;
}

// ---------------------------------------------------------------- C23
struct PNode { string text; int indent; };
static vector<PNode> lines_of(const string& out, vector<string>* other) {
  vector<PNode> v; size_t p = 0;
  while (p < out.size()) {
    size_t e = out.find('\n', p); if (e == string::npos) e = out.size();
    string l = out.substr(p, e - p); p = e + 1;
    if (l.compare(0, 7, "KVTree ") == 0 || l.compare(0, 6, "ERROR:") == 0) { if (other) other->push_back(l); continue; }
    int i = 0; while (i < (int)l.size() && l[(size_t)i] == ' ') i++;
    v.push_back({l.substr((size_t)i), i});
  }
  return v;
}
// reads the printed lines back into a tree; keyval lines are split where the tree says so
static bool parse_print(const vector<PNode>& v, size_t& i, int indent, const Tree& want, bool kvmode, string& why) {
  set<string> seen;
  while (i < v.size() && v[i].indent >= indent) {
    if (v[i].indent != indent) { why = sfmt("line %zu (%s) is indented by %d, expected %d", i, v[i].text.substr(0, 60).c_str(), v[i].indent, indent); return false; }
    const Tree* c = nullptr; string key; bool pair = false;
    for (auto& k : want.kids) {
      if (seen.count(k.first)) continue;
      const Tree& s = k.second; bool kvp = kvmode && s.kids.size() == 1 && s.kids.begin()->second.empty();
      if (v[i].text == (kvp ? k.first + " = " + s.kids.begin()->first : k.first)) { key = k.first; c = &s; pair = kvp; break; }
    }
    if (!c) { why = sfmt("line %zu (%s) is no key of its parent", i, v[i].text.substr(0, 60).c_str()); return false; }
    seen.insert(key); i++;
    if (!pair && !parse_print(v, i, indent + 2, *c, kvmode, why)) return false;
  }
  if (seen.size() != want.kids.size()) { for (auto& k : want.kids) if (!seen.count(k.first)) { why = "key " + k.first.substr(0, 60) + " is not printed under its parent"; break; } return false; }
  return true;
}
static bool key_ok(const Tree& t) { for (auto& k : t.kids) { if (k.first.empty() || k.first[0] == ' ' || k.first.compare(0, 7, "KVTree ") == 0 || k.first.compare(0, 6, "ERROR:") == 0) return false; if (!key_ok(k.second)) return false; } return true; }
void run_c23() {
  base_setup(); HEAP_CAP = 24u << 20;
  GenOpt go; go.printable = true; go.maxdepth = chance(W, 1, 4) ? 900 : 300; go.wdeep = 2;
  string path = pick_prefix(), n = fs_norm(nullptr, path);
  Tree t = gen_tree(go); if (!key_ok(t)) t = kv("k", "v");
  u32 cond = pickw(W, {4, 3, 1, 4, 2, 1}); Rng r(pick(W, 1u << 20));
  // standard output may be a file on a full disk
  long room = -1; if (chance(W, 1, 6)) switch (pick(W, 4)) { case 0: room = 0; break; case 1: room = (long)pick(W, 200); break; case 2: room = (long)pick(W, 6000); break; default: room = (long)pick(W, 60000); }
  int mode = (int)pick(W, 3); vector<string> args; if (mode == 1) { args.push_back("-m"); args.push_back("tree"); } if (mode == 2) { args.push_back(chance(W, 1, 2) ? "--mode" : "-m"); args.push_back("keyval"); }
  bool mustok = false, mustfail = false; FaultPlan* pl = nullptr; string what = "intact"; Tree want = t;
  if (cond != 2) fs_put(n, enc_file(t, r));
  switch (cond) {
    case 0: mustok = true; if (chance(W, 1, 6)) { fs_put(n, ""); want = Tree(); what = "empty"; } break;
    case 1: { string b = bytes_of(path); Damage d = damage_file(n, true, true); bool changed = !fs_exists(n) || bytes_of(path) != b; what = d.what; if (changed && d.must_fail && !(fs_exists(n) && bytes_of(path).empty())) mustfail = true; if (d.kind == 6 || !changed) mustok = true; if (fs_exists(n) && bytes_of(path).empty()) { want = Tree(); mustok = true; } break; }
    case 2: mustfail = true; what = "missing"; break;
    case 3: pl = gen_plan(M(FK_OPEN) | M(FK_EIO_RW) | M(FK_CLOSE) | M(FK_ACCESS) | M(FK_SHORT) | M(FK_EINTR), true); if (chance(W, 1, 2)) pl->rate = 300; what = "failing calls"; break;
    case 4: pl = transient_plan(); mustok = true; what = "transient trouble"; break;
    default: what = "bad arguments"; break;
  }
  vector<string> full = args; int rc = -100; string out;
  if (cond == 5) {
    switch (pick(W, 4)) { case 0: break; case 1: full.push_back(path); full.push_back(path); break; case 2: full = {"-m", "xml", path}; break; default: full = {"-z", path}; break; }
    mustfail = true;
  } else full.push_back(path);
  Proc* p = in_proc("tool", [&]() { Proc* p = CUR->proc; p->out.clear(); p->out_cap = room; rc = run_print(full); out = p->out; }, pl);
  check_exits();
  vector<string> other; auto v = lines_of(out, &other); bool said = false; for (auto& l : other) said |= l.find("ERROR") != string::npos; said |= p->err.find("ERROR") != string::npos || !p->err.empty();
  if (p->out_err) {
    if (rc == 0) violation("false-success", sfmt("kvtree_print exits with 0 although its output could not be written (%s, room for %ld bytes)", what.c_str(), room));
    COUNT("probe.print_output_lost"); NONTRIV = true; SAMPLE = sfmt("%s, room for %ld bytes of output: status %d", what.c_str(), room, rc); return;
  }
  if (rc == 0) {
    if (mustfail) violation("false-success", sfmt("kvtree_print exits with 0 although: %s", what.c_str()));
    size_t i = 0; string why;
    if (!parse_print(v, i, 2, want, mode == 2, why)) violation("wrong-output", sfmt("kvtree_print (%s, %s) exits with 0 but does not print the stored tree: %s", mode == 2 ? "keyval" : "tree", what.c_str(), why.c_str()));
    if (i != v.size()) violation("wrong-output", sfmt("kvtree_print (%s) prints more than the stored tree: %s", what.c_str(), v[i].text.substr(0, 80).c_str()));
    COUNT("probe.print_success");
  } else {
    if (mustok) violation("false-failure", sfmt("kvtree_print exits with %d although the file is readable (%s): %s", rc, what.c_str(), out.substr(0, 200).c_str()));
    if (cond == 3 && pl->fired == 0) violation("false-failure", sfmt("kvtree_print exits with %d although nothing failed", rc));
    if (cond != 5) {
      if (!said) violation("silent-failure", sfmt("kvtree_print exits with %d without an error message (%s)", rc, what.c_str()));
      if (!v.empty()) violation("wrong-output", sfmt("kvtree_print fails (%s) but prints: %s", what.c_str(), v[0].text.substr(0, 80).c_str()));
    }
    COUNT("probe.print_failure");
  }
  NONTRIV = true; SAMPLE = sfmt("%llu keys, %s, %s: status %d", (unsigned long long)tnodes(t), mode == 2 ? "keyval" : "tree", what.c_str(), rc);
}
