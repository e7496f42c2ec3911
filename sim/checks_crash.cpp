// C01, C02: crash histories of files and single-process sets.
#include "checks.h"
enum { EMPTY = -1, MISSING = -2, TORN = -3, UNKNOWN = -4 };
struct Obj {
  string path; bool set = false; int ranks = 0; string epf; int writes = 0; bool overwritten = false;
  std::set<int> vis, dur; bool synced = true; bool everacked = false;
  std::set<int> passed;              // trees ever passed to a write of this object (or stored initially)
};
static vector<Tree> trees;
static vector<Obj> objs;
static bool m1;                    // C01 (else C02)
static u64 nack, ncrash;
static int add_tree(const Tree& t) { trees.push_back(t); return (int)trees.size() - 1; }
static void started(Obj& o, int t) {
  o.passed.insert(t); o.writes++;
  for (auto* s : {&o.vis, &o.dur}) { s->insert(t); s->insert(EMPTY); s->insert(TORN); if (o.set && o.writes > 1) s->insert(UNKNOWN); }
  o.synced = false;
}
static void acked(Obj& o, int t) { o.vis = {t}; o.dur = {t}; o.synced = true; o.everacked = true; nack++; COUNT("probe.acknowledged_writes"); }
static bool allcand(const std::set<int>& s) { for (int c : s) if (c < 0) return false; return true; }
// judge the outcome of a read of o; clean: no fault was delivered to the reader
static void judge(Obj& o, int rc, const Tree& got, bool clean, const string& how) {
  if (rc == KV_OK) {
    int hit = -1;
    for (int c : o.passed) if (trees[(size_t)c] == got) hit = c;
    bool unknown = o.vis.count(UNKNOWN);
    if (!m1) {
      if (o.set) {
        if (o.writes <= 1 && hit < 0) violation("wrong-tree", sfmt("reading the set %s (%s) succeeded with data that is not the set that was written: %s", o.path.c_str(), how.c_str(), tdiff(trees[(size_t)*o.passed.begin()], got).c_str()));
      } else if (hit < 0 && !got.empty()) {
        string d; for (int c : o.passed) { d += sfmt(" against tree#%d: ", c) + tdiff(trees[(size_t)c], got) + ";"; if (d.size() > 400) break; }
        violation("wrong-tree", sfmt("reading %s (%s) succeeded with a tree nobody wrote:%s", o.path.c_str(), how.c_str(), d.c_str()));
      }
      COUNT("probe.reads_judged");
    } else if (o.everacked && allcand(o.vis) && o.vis.size() == 1) {
      int want = *o.vis.begin();
      if (got != trees[(size_t)want]) violation("lost-ack", sfmt("the acknowledged write of tree#%d to %s is lost: %s returned %s", want, o.path.c_str(), how.c_str(), tdiff(trees[(size_t)want], got).c_str()));
      COUNT("probe.acknowledged_writes_read_back");
    }
    if (hit >= 0 && !unknown) { o.vis = {hit}; if (o.synced) o.dur = {hit}; }
  } else if (clean) {
    if (m1 && o.everacked && allcand(o.vis) && o.vis.size() == 1)
      violation("lost-ack", sfmt("the acknowledged write of tree#%d to %s is lost: %s fails", *o.vis.begin(), o.path.c_str(), how.c_str()));
    COUNT("probe.reads_refused_after_crash");
  }
}
static void power_model() { for (Obj& o : objs) { o.vis = o.dur; o.synced = true; } ncrash++; }
static void clean_reads(const char* when) {
  if (POWER_LOST) POWER_LOST = false;
  in_proc("reader", [&]() {
    for (Obj& o : objs) {
      if (chance(W, 1, 6)) continue;
      if (o.set) { Rd r = read_set(o.path); judge(o, r.rc, r.t, true, string("read_scatter_single ") + when); continue; }
      int k = (int)pick(W, RK_N);
      Rd r = read_fresh(k, o.path);
      if (k == RK_LOCK || k == RK_OPEN) { if (o.vis.count(MISSING)) { o.vis.insert(EMPTY); o.dur.insert(EMPTY); o.synced = false; } }
      judge(o, r.rc, r.t, true, string(RKNAME[k]) + " " + when);
    }
  });
}
static void history(bool c01) {
  m1 = c01; trees.clear(); objs.clear(); nack = ncrash = 0;
  base_setup();
  u32 nf = 1 + pickw(W, {4, 3, 2});
  GenOpt go; if (chance(W, 1, 12)) go.whuge = 1;
  for (u32 i = 0; i < nf; i++) {
    Obj o; o.set = chance(W, 1, 4);
    o.path = i == 0 ? pick_prefix() : sfmt("/w/other%u", i);
    string n = fs_norm(nullptr, o.path);
    if (o.set) {
      static const char* e[] = {"1", "2", "3", "5", ""};
      o.ranks = (int)range(W, 1, 6); o.epf = e[pick(W, 5)]; o.vis = o.dur = {MISSING};
    } else switch (pickw(W, {3, 4, 1, 2})) {
      case 0: o.vis = o.dur = {MISSING}; break;
      case 1: { int t = add_tree(gen_tree(go)); Rng r(pick(W, 1u << 20)); fs_put(n, enc_file(trees[(size_t)t], r)); o.passed.insert(t); o.vis = o.dur = {t}; break; }
      case 2: fs_put(n, ""); o.vis = o.dur = {EMPTY}; break;
      default: fs_put(n, garbage(1 + pick(W, 60000), pick(W, 1000))); o.vis = o.dur = {TORN}; break;
    }
    objs.push_back(o);
  }
  if (chance(W, 1, 5)) FS.capacity = 200 + pick(W, 40000);
  u32 epochs = range(W, 1, 4);
  u64 f0 = 0;
  for (u32 e = 0; e < epochs; e++) {
    FaultPlan* pl = gen_plan(HARD | SOFT | LOCKF, true);
    static const u32 kr[] = {0, 60, 150, 400};
    pl->killrate = kr[pick(W, 4)];
    pl->mask |= chance(W, 1, 2) ? M(FK_KILL) : M(FK_POWER);
    if (chance(W, 1, 3)) { u32 keep = pl->mask & (M(FK_KILL) | M(FK_POWER)); pl->mask = keep; }   // crash without other faults
    u32 nops = range(W, 1, 4);
    Proc* p = in_proc(sfmt("writer%u.", e), [&]() {
      for (u32 k = 0; k < nops; k++) {
        Obj& o = objs[pick(W, (u32)objs.size())];
        if (o.set) {
          if (!m1 && o.writes >= 1 && chance(W, 2, 3)) continue;
          vector<Tree> v; for (int i = 0; i < o.ranks; i++) v.push_back(chance(W, 1, 2) ? gen_tree(go) : gen_small());
          int t = add_tree(rank_tree(v));
          note(sfmt("begin set write of tree#%d", t));
          started(o, t);
          int rc = write_set(o.path, trees[(size_t)t], o.ranks, o.epf.empty() ? nullptr : o.epf.c_str());
          if (rc == KV_OK) acked(o, t);
        } else if (chance(W, 1, 6)) {
          int rk = (int)pick(W, RK_N); u64 f = fired_now();
          if ((rk == RK_LOCK || rk == RK_OPEN) && o.vis.count(MISSING)) { o.vis.insert(EMPTY); o.dur.insert(EMPTY); o.synced = false; }
          Rd r = read_fresh(rk, o.path); judge(o, r.rc, r.t, fired_now() == f, RKNAME[rk]);
        } else {
          int t = add_tree(gen_tree(go));
          int wk = (int)pick(W, WK_FD);
          note(sfmt("begin %s of tree#%d to %s", WKNAME[wk], t, o.path.c_str()));
          if (wk == WK_RMW && o.vis.count(MISSING)) { o.vis.insert(EMPTY); o.dur.insert(EMPTY); o.synced = false; }
          Rd rd; rd.rc = -100; bool st = false; u64 f = fired_now();
          int rc = write_op(wk, o.path, trees[(size_t)t], &rd, [&]() { if (rd.rc != -100) judge(o, rd.rc, rd.t, fired_now() == f, "lock_open_read"); st = true; started(o, t); });
          if (wk == WK_RMW && !st && rd.rc != -100) judge(o, rd.rc, rd.t, fired_now() == f, "lock_open_read");
          if (rc == KV_OK) acked(o, t);
        }
      }
    }, pl);
    f0 += pl->fired;
    if (p->killed) { ncrash++; COUNT("probe.writer_crashed"); }
    if (POWER_LOST) power_model();
    else if (chance(W, e + 1 == epochs ? 3 : 1, 4)) { fs_power_fail(); power_model(); }
    check_exits();
    if (e + 1 == epochs || chance(W, 1, 2)) clean_reads(sfmt("after epoch %u", e).c_str());
    POWER_LOST = false;
  }
  check_exits();
  NONTRIV = c01 ? (nack > 0 && (ncrash > 0 || f0 > 0)) : (ncrash > 0 || f0 > 0);
  SAMPLE = sfmt("%u objects, %u epochs, %llu acknowledged writes, %llu crashes, %llu hard faults", nf, epochs, (unsigned long long)nack, (unsigned long long)ncrash, (unsigned long long)f0);
}
void run_c01() { history(true); }
// a set first written under a new prefix, collectively or in a single process, is interrupted; the readers come afterwards
static void new_set() {
  base_setup();
  int n = pick_ranks(23); string prefix = pick_prefix(); vector<Tree> v = rank_data(n); bool coll = chance(W, 2, 3);
  if (chance(W, 1, 8)) FS.capacity = 200 + pick(W, 6000);
  static const u32 kr[] = {30, 100, 300, 800};
  u32 crash = M(chance(W, 1, 2) ? FK_KILL : FK_POWER), rate = kr[pick(W, 4)]; bool quiet = chance(W, 1, 2);
  u64 f = 0; bool dead = false, acked = false;
  auto arm = [&](FaultPlan* pl) { if (quiet) pl->mask = 0; pl->mask |= crash; pl->killrate = rate; };
  if (coll) {
    Job* j = make_job(n, "writer"); j->segsize = pick_seg(); vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m);
    for (FaultPlan* pl : plans_for(j, HARD | SOFT, true)) arm(pl);
    Verdicts vd; vd.rc.assign((size_t)n, -100);
    run_ranks(j, m, [&](int me) { gather_body(prefix, v, me, c, vd); }, "gather write");
    f = fired_of(j); for (Proc* p : j->procs) dead |= p->killed;
    for (int r : vd.rc) acked |= r == KV_OK;
  } else {
    static const char* e[] = {"1", "2", "3", "5", ""}; string epf = e[pick(W, 5)]; FaultPlan* pl = gen_plan(HARD | SOFT, true); arm(pl);
    Proc* p = in_proc("writer", [&]() { acked = write_set(prefix, rank_tree(v), n, epf.empty() ? nullptr : epf.c_str()) == KV_OK; }, pl);
    f = pl->fired; dead = p->killed;
  }
  check_exits();
  bool power = POWER_LOST; POWER_LOST = false;
  if (!power && chance(W, 1, 2)) { note("power failure"); fs_power_fail(); POWER_LOST = false; power = true; }
  if (dead) COUNT("probe.set_writer_crashed");
  u32 both = range(W, 1, 3); bool got1 = false, got2 = false;
  if (both & 1) {
    Job* j = make_job(n, "reader"); vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m);
    Verdicts vd; vd.rc.assign((size_t)n, -100); vector<Tree> got((size_t)n), pre = pres_of(n);
    run_ranks(j, m, [&](int me) { scatter_body(prefix, pre[(size_t)me], me, c, vd, got); }, "scatter read after a crash");
    check_exits();
    for (int r = 0; r < n; r++) if (vd.rc[(size_t)r] == KV_OK) {
      Tree want = tunion(pre[(size_t)r], v[(size_t)r]); got1 = true;
      if (got[(size_t)r] != want) violation("wrong-tree", sfmt("the scatter read of %s succeeds on rank %d after its writer was interrupted, with data that is not what was written: ", prefix.c_str(), r) + tdiff(want, got[(size_t)r]));
      if (!vd.all(KV_OK)) violation("wrong-tree", sfmt("the scatter read of %s, whose writer was interrupted, returned only some ranks' trees:", prefix.c_str()) + vd.show());
    }
    COUNT(got1 ? "probe.reads_judged" : "probe.reads_refused_after_crash");
  }
  if (both & 2) {
    in_proc("single reader", [&]() {
      Rd r = read_set(prefix); got2 = r.rc == KV_OK;
      if (got2 && r.t != rank_tree(v)) violation("wrong-tree", sfmt("the single-process read of %s succeeds after its writer was interrupted, with data that is not the set that was written: ", prefix.c_str()) + tdiff(rank_tree(v), r.t));
    });
    check_exits();
    COUNT(got2 ? "probe.reads_judged" : "probe.reads_refused_after_crash");
  }
  NONTRIV = dead || f > 0 || power;
  SAMPLE = sfmt("new set of %d ranks, %s, %s%s%llu hard faults: write %s, read %s", n, coll ? "collective" : "single process", dead ? "writer crashed, " : "", power ? "power lost, " : "", (unsigned long long)f, acked ? "acknowledged" : "not acknowledged", got1 || got2 ? "succeeded" : "failed");
}
void run_c02() { if (chance(W, 1, 3)) new_set(); else history(false); }
