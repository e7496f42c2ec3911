// C06, C07, C08: concurrent locked operations on one file.
#include "checks.h"

// ---------------------------------------------------------------- C06
struct C6 { set<string> acked, started; u64 seq = 0, lastack = 0, lastfail = 0; u64 nfail = 0, nok = 0; };
void run_c06() {
  C6 s;
  bool threads = chance(W, 1, 4);
  base_setup(threads);
  string path = pick_prefix(), n = fs_norm(nullptr, path);
  Tree init;
  if (chance(W, 1, 2)) { init = gen_tree(); Rng r(pick(W, 1000)); fs_put(n, enc_file(init, r)); }
  bool faults = chance(W, 2, 3), kills = !threads && chance(W, 1, 2);
  bool big = chance(W, 1, 4);
  u32 np = 2 + pickw(W, {4, 3, 2});
  Proc* shared = threads ? new_proc("threads") : nullptr;
  vector<Proc*> ps;
  string filler(big ? 3000 : 0, 'f');
  u64 anyfault = 0;
  if (shared && faults) shared->plan = gen_plan(SOFT | LOCKF | HARD, true);
  if (threads) { BB_PREEMPT = chance(W, 1, 3); BB_MEAN = 400; }
  for (u32 i = 0; i < np; i++) {
    Proc* p = threads ? shared : new_proc(sfmt("p%u.", i));
    if (!threads) {
      if (faults && chance(W, 1, 2)) p->plan = gen_plan(SOFT | LOCKF | HARD, true);
      if (kills && chance(W, 1, 2)) { if (!p->plan) p->plan = new_plan(); p->plan->mask |= M(FK_KILL); static const u32 kr[] = {100, 200, 500}; p->plan->killrate = kr[pick(W, 3)]; }
      ps.push_back(p);
    }
    u32 iters = range(W, 1, 4);
    bool reader = chance(W, 1, 6), think = chance(W, 1, 3);
    int me = (int)i;
    spawn(p, [&s, path, iters, reader, think, me, big, filler, p, init]() {
      for (u32 k = 0; k < iters; k++) {
        if (think) sleep_us(pick(D, 4000));
        set<string> need = s.acked;
        Tree old;
        auto judge = [&](const Tree& got, const char* who) {
          for (auto& t : need) if (!got.get(t)) violation("lost-update", sfmt("%s does not show update %s, which was acknowledged before it began", who, t.c_str()));
          for (auto& kk : got.kids) if (!s.started.count(kk.first) && !init.get(kk.first)) violation("lost-update", sfmt("%s shows '%s', which nobody added", who, kk.first.substr(0, 40).c_str()));
          for (auto& kk : init.kids) if (!got.get(kk.first)) violation("lost-update", sfmt("%s misses the original key %s", who, tshow(kv(kk.first, "")).c_str()));
        };
        if (reader) {
          Rd r = read_fresh(RK_LOCK, path);
          if (r.rc == KV_OK) judge(r.t, "kvtree_read_with_lock"); else s.nfail++;
          continue;
        }
        kvtree* h = to_lib(Tree()); int fd = -77;
        set<int> before; for (auto& x : p->fds) before.insert(x.first);
        bool alone = p->fibers.size() == 1;
        op_begin();
        int rc = CALL(kvtree_lock_open_read, path.c_str(), &fd, h);
        note(sfmt("#%d lock_open_read -> %s", me, res(rc).c_str()));
        if (alone) { string bad = handed_check(rc, fd, path, before); if (!bad.empty()) violation("descriptor", bad); }
        if (rc != KV_OK) { del_lib(h); s.nfail++; continue; }
        Tree got = from_lib(h);
        judge(got, "kvtree_lock_open_read");
        string tk = token(sfmt("u%d_", me));
        { LibCall lc("app-update"); kvtree* c = L.kvtree_new(); L.kvtree_set(h, tk.c_str(), c); if (big && k % 2 == 0) L.kvtree_set_kv(h, tk.c_str(), filler.c_str()); }
        if (think) sleep_us(pick(D, 3000));
        s.started.insert(tk); u64 began = ++s.seq;
        op_begin();
        rc = CALL(kvtree_write_close_unlock, path.c_str(), &fd, h);
        note(sfmt("#%d write_close_unlock(%s) -> %s", me, tk.c_str(), res(rc).c_str()));
        del_lib(h);
        if (rc == KV_OK) {
          s.acked.insert(tk); s.lastack = std::max(s.lastack, began); s.nok++;   // its effect came after it began
        } else { s.lastfail = ++s.seq; s.nfail++; if (fd >= 0 && p->fds.count(fd)) app_close(fd); }
      }
    });
  }
  run_all("updates");
  check_exits();
  u64 killed = 0;
  for (Proc* p : ps) { if (p->killed) killed++; if (p->plan) anyfault += p->plan->fired; }
  if (shared && shared->plan) anyfault += shared->plan->fired;
  bool dirty = s.lastfail > s.lastack || killed > 0;
  if (anyfault == 0 && s.nfail) violation("spurious-failure", sfmt("%llu locked operations failed although no fault happened", (unsigned long long)s.nfail));
  in_proc("final", [&]() {
    Rd r = read_fresh(RK_LOCK, path);
    if (r.rc != KV_OK) { if (!dirty && s.nok) violation("lost-update", "the file cannot be read after the last update was acknowledged"); return; }
    for (auto& t : s.acked) if (!r.t.get(t)) violation("lost-update", sfmt("acknowledged update %s is missing at the end", t.c_str()));
    for (auto& k : init.kids) if (!r.t.get(k.first)) violation("lost-update", "an original key is missing at the end");
    for (auto& k : r.t.kids) if (!s.started.count(k.first) && !init.get(k.first)) violation("lost-update", "a key nobody added at the end");
  });
  check_exits();
  NONTRIV = s.nok >= 2;
  SAMPLE = sfmt("%u %s, %llu acknowledged updates, %llu failures, %llu kills, %llu hard faults", np, threads ? "threads" : "processes", (unsigned long long)s.nok, (unsigned long long)s.nfail, (unsigned long long)killed, (unsigned long long)anyfault);
}

// ---------------------------------------------------------------- C07
struct HOp { int kind; u64 a, b; bool failed = false, pending = true, ownfault = false; bool hasread = false; int rv = 0; int wv = -1; bool wstarted = false; int proc; string d; };
// states: 0 empty, 1.. values, -1 unreadable
static bool linearize(vector<HOp>& h, int init, string& why) {
  size_t n = h.size(); if (n > 40) harness_error("history too long");
  set<std::pair<u64, int>> seen; u64 done = 0; size_t best = 0; u64 budget = 400000;
  std::function<bool(u64, int)> go = [&](u64 mask, int st) -> bool {
    bool all = true; u64 minend = ~0ull;
    for (size_t i = 0; i < n; i++) if (!(mask >> i & 1)) { if (!h[i].pending) { all = false; minend = std::min(minend, h[i].b); } }
    if (all) return true;
    if (!seen.insert({mask, st}).second) return false;
    if (--budget == 0) { COUNT("probe.linearization_budget"); return true; }
    best = std::max(best, (size_t)__builtin_popcountll(mask));
    for (size_t i = 0; i < n; i++) {
      if (mask >> i & 1) continue;
      HOp& o = h[i];
      if (o.a > minend) continue;
      u64 m = mask | 1ull << i;
      // the reading half
      bool readok = true;
      if (o.kind != 1) {                        // read or read-modify-write
        if (o.hasread) readok = st == o.rv;
        else if (o.pending) readok = true;
        else readok = st == -1 || o.ownfault;   // the read failed
      }
      if (!readok) continue;
      vector<int> next;
      if (o.kind == 0 || !o.wstarted) next = {st};
      else if (!o.pending && !o.failed) next = {o.wv};
      else next = {st, o.wv, -1};
      for (int ns : next) if (go(m, ns)) return true;
    }
    return false;
  };
  bool r = go(0, init);
  if (!r) { why = sfmt("no order of the %zu operations explains the results (%zu could be placed):", n, best); for (auto& o : h) why += "\n    " + o.d; }
  (void)done;
  return r;
}
void run_c07() {
  bool threads = chance(W, 1, 5);
  base_setup(threads);
  string path = pick_prefix(), n = fs_norm(nullptr, path);
  vector<Tree> vals(1);
  auto value = [&](const Tree& t) { if (t.empty()) return 0; for (size_t i = 1; i < vals.size(); i++) if (vals[i] == t) return (int)i; return -5; };
  int init = 0;
  switch (pickw(W, {3, 3, 1, 1})) { case 0: break; case 1: { Tree t = gen_tree(); t[token("init")]; vals.push_back(t); Rng r(pick(W, 1000)); fs_put(n, enc_file(t, r)); init = 1; break; } case 2: fs_put(n, ""); break; default: fs_put(n, garbage(100 + pick(W, 3000), 3)); init = -1; }
  bool faults = chance(W, 1, 2), kills = !threads && chance(W, 2, 5);
  u32 np = 2 + pickw(W, {4, 3, 1});
  vector<HOp> hist; hist.reserve(40);
  vector<Proc*> ps;
  Proc* shared = threads ? new_proc("threads") : nullptr;
  if (shared && faults) shared->plan = gen_plan(SOFT | LOCKF | HARD, true);
  if (threads) { BB_PREEMPT = chance(W, 1, 3); BB_MEAN = 400; }
  bool repair = chance(W, 1, 4);
  for (u32 i = 0; i < np; i++) {
    Proc* p = threads ? shared : new_proc(sfmt("p%u.", i));
    if (!threads) {
      if (faults && chance(W, 1, 2)) p->plan = gen_plan(SOFT | LOCKF | HARD, true);
      if (kills && chance(W, 1, 2)) { if (!p->plan) p->plan = new_plan(); p->plan->mask |= M(FK_KILL); static const u32 kr[] = {100, 200, 500}; p->plan->killrate = kr[pick(W, 3)]; }
      ps.push_back(p);
    }
    u32 iters = range(W, 1, 4); bool think = chance(W, 1, 3);
    int me = (int)i;
    spawn(p, [&, p, iters, think, me]() {
      for (u32 k = 0; k < iters; k++) {
        if (think) sleep_us(pick(D, 4000));
        int kind = (int)pickw(W, {3, 2, 3});
        size_t ix = hist.size(); hist.emplace_back();
        auto H = [&]() -> HOp& { return hist[ix]; };
        H().kind = kind; H().a = TRACE_LEN; H().proc = me;
        u64 f0 = fired_now();
        if (kind == 0) {
          H().d = sfmt("#%d read_with_lock", me);
          Rd r = read_fresh(RK_LOCK, path);
          H().failed = r.rc != KV_OK; if (!H().failed) { H().hasread = true; H().rv = value(r.t); if (H().rv == -5) violation("not-linearizable", "read_with_lock returned a tree nobody wrote: " + tshow(r.t)); }
        } else if (kind == 1) {
          Tree t = chance(W, 1, 2) ? gen_tree() : gen_small(); t[token("v")]; vals.push_back(t); H().wv = (int)vals.size() - 1;
          H().d = sfmt("#%d write_with_lock(v%d)", me, H().wv);
          H().wstarted = true;
          int rc = write_op(WK_LOCK, path, t);
          H().failed = rc != KV_OK;
        } else {
          kvtree* d = to_lib(Tree()); int fd = -77;
          H().d = sfmt("#%d read-modify-write", me);
          op_begin(); int rc = CALL(kvtree_lock_open_read, path.c_str(), &fd, d);
          Tree got = from_lib(d); del_lib(d);
          note(sfmt("#%d lock_open_read -> %s", me, res(rc).c_str()));
          if (rc == KV_OK) {
            H().hasread = true; H().rv = value(got);
            if (H().rv == -5) violation("not-linearizable", "lock_open_read returned a tree nobody wrote: " + tshow(got));
            if (think) sleep_us(pick(D, 2000));
            Tree t = chance(W, 1, 2) ? gen_tree() : gen_small(); t[token("v")]; vals.push_back(t); H().wv = (int)vals.size() - 1; H().wstarted = true;
            H().d += sfmt("(v%d)", H().wv);
            kvtree* w = to_lib(t); op_begin(); rc = CALL(kvtree_write_close_unlock, path.c_str(), &fd, w); del_lib(w);
            note(sfmt("#%d write_close_unlock(v%d) -> %s", me, H().wv, res(rc).c_str()));
            H().failed = rc != KV_OK;
            if (rc != KV_OK && fd >= 0 && p->fds.count(fd)) app_close(fd);
          } else H().failed = true;
        }
        H().b = TRACE_LEN; H().pending = false; H().ownfault = fired_now() != f0;
        if (H().failed && threads) H().ownfault = p->plan && p->plan->fired;
        H().d += sfmt(" [%llu..%llu] -> %s", (unsigned long long)H().a, (unsigned long long)H().b, H().failed ? "failed" : "ok");
        if (H().hasread) H().d += sfmt(", saw %s", H().rv == 0 ? "empty" : sfmt("v%d", H().rv).c_str());
        if (H().kind == 1 && H().failed && !H().ownfault) violation("not-linearizable", sfmt("write_with_lock failed although no fault happened to it"));
      }
    });
  }
  run_all("locked operations");
  check_exits();
  u64 kl = 0; for (Proc* p : ps) kl += p->killed;
  // later clean accesses
  in_proc("final", [&]() {
    for (int k = 0; k < (repair ? 3 : 1); k++) {
      HOp o; o.a = TRACE_LEN; o.proc = 99; o.pending = false;
      if (repair && k == 1) { Tree t = gen_small(); t[token("v")]; vals.push_back(t); o.kind = 1; o.wv = (int)vals.size() - 1; o.wstarted = true; int rc = write_op(WK_LOCK, path, t); o.failed = rc != KV_OK; o.d = sfmt("final write_with_lock(v%d)", o.wv); if (o.failed) violation("not-linearizable", "a write without faults failed"); }
      else { Rd r = read_fresh(RK_LOCK, path); o.kind = 0; o.failed = r.rc != KV_OK; o.d = "final read_with_lock"; if (!o.failed) { o.hasread = true; o.rv = value(r.t); if (o.rv == -5) violation("not-linearizable", "read_with_lock returned a tree nobody wrote: " + tshow(r.t)); o.d += o.rv == 0 ? " saw empty" : sfmt(" saw v%d", o.rv); } else o.d += " failed"; }
      o.b = TRACE_LEN; hist.push_back(o);
    }
  });
  check_exits();
  for (auto& o : hist) if (o.pending) { o.b = ~0ull; o.d += " killed"; if (o.hasread) o.d += sfmt(", saw v%d", o.rv); }
  string why;
  if (!linearize(hist, init, why)) violation("not-linearizable", why + sfmt("\n    initial state: %s", init == 0 ? "empty" : init < 0 ? "unreadable" : "v1"));
  NONTRIV = hist.size() >= 4;
  SAMPLE = sfmt("%zu operations of %u %s, %llu kills", hist.size(), np, threads ? "threads" : "processes", (unsigned long long)kl);
}

// ---------------------------------------------------------------- C08
void run_c08() {
  base_setup();
  if (chance(W, 1, 3)) FS.maxlat = 20;
  string path = pick_prefix(), n = fs_norm(nullptr, path);
  bool readable = true;
  switch (pickw(W, {2, 4, 1})) { case 0: break; case 1: { Rng r(pick(W, 1000)); fs_put(n, enc_file(gen_tree(), r)); break; } default: fs_put(n, garbage(100, 3)); readable = false; }
  u32 np = 2 + pickw(W, {3, 3, 2});
  u32 mode = pickw(W, {4, 3, 2});        // victims with faults / kills, only readers, no faults
  u64 fails = 0, oks = 0; bool stuckvictims = false;
  vector<Proc*> ps;
  for (u32 i = 0; i < np; i++) {
    Proc* p = new_proc(sfmt("p%u.", i)); ps.push_back(p);
    bool victim = mode == 0 && (i == 0 || chance(W, 1, 4));
    if (victim) {
      p->plan = gen_plan(HARD | LOCKF | (chance(W, 1, 2) ? SOFT : 0), true);
      if (chance(W, 1, 2)) p->plan->mask = 0;
      if (p->plan->mask == 0 || chance(W, 1, 2)) { p->plan->mask |= M(FK_KILL); p->plan->killrate = 200 + 300 * pick(W, 3); }
      else if (chance(W, 1, 2)) { p->plan->rate = 250; p->plan->sticky = true; }
    }
    u32 iters = range(W, 1, 4);
    bool slow = victim && chance(W, 1, 5);
    spawn(p, [&, p, iters, victim, slow, i]() {
      for (u32 k = 0; k < iters; k++) {
        u32 op = mode == 1 ? (pick(W, 3) ? 0 : 3) : pickw(W, {3, 2, 3, 0});
        u64 f0 = fired_now(); int rc; const char* nm; bool was = readable;
        if (op == 0 || op == 3) { nm = "kvtree_read_with_lock"; rc = read_fresh(RK_LOCK, path).rc; }
        else if (op == 1) { nm = "kvtree_write_with_lock"; rc = write_op(WK_LOCK, path, gen_small()); if (rc == KV_OK) readable = true; }
        else {
          nm = "kvtree_lock_open_read";
          kvtree* d = to_lib(Tree()); int fd = -77; set<int> b; for (auto& x : p->fds) b.insert(x.first);
          op_begin(); rc = CALL(kvtree_lock_open_read, path.c_str(), &fd, d); del_lib(d);
          note(string("lock_open_read -> ") + res(rc));
          string bad = handed_check(rc, fd, path, b); if (!bad.empty()) violation("lock-left", bad);
          if (rc == KV_OK) {
            if (slow) sleep_us(200000);
            nm = "kvtree_write_close_unlock";
            kvtree* w = to_lib(gen_small()); op_begin(); rc = CALL(kvtree_write_close_unlock, path.c_str(), &fd, w); del_lib(w);
            note(string("write_close_unlock -> ") + res(rc));
            if (rc == KV_OK) readable = true;
          }
        }
        string where;
        if (holds_lock(p, &where)) violation("lock-left", sfmt("%s returned (%s) but its process still holds the lock on %s", nm, res(rc).c_str(), where.c_str()));
        if (rc != KV_OK) {
          fails++;
          if (mode != 0 && was) violation("not-completed", sfmt("%s failed without any fault", nm));
          if (fired_now() == f0 && op == 1) violation("not-completed", sfmt("%s failed although no fault happened to it", nm));
        } else oks++;
      }
    });
  }
  run_all("locked operations");
  check_exits();
  // faults have stopped: everybody else gets the lock within bounded time
  string where;
  if (fs_any_lock(&where)) violation("lock-left", "all processes are gone or idle but a lock remains on " + where);
  u64 t0 = NOW;
  u32 nl = 1 + pick(W, 2); u64 late = 0;
  for (u32 i = 0; i < nl; i++) { Proc* p = new_proc(sfmt("later%u.", i)); spawn(p, [&]() {
    int rc = write_op(WK_LOCK, path, gen_small()); if (rc != KV_OK) violation("not-completed", "a locked write fails after faults stopped");
    Rd r = read_fresh(RK_LOCK, path); if (r.rc != KV_OK) violation("not-completed", "a locked read fails after faults stopped");
    late++; }); }
  run_all("operations after the faults");
  check_exits();
  if (late != nl) violation("not-completed", "a process did not finish after faults stopped");
  if (NOW - t0 > 5000000) violation("not-completed", "locked operations took more than five simulated seconds without faults");
  if (FS.shared_wait) violation("reader-waits", FS.shared_wait_msg);
  (void)stuckvictims;
  NONTRIV = oks + fails >= 3;
  SAMPLE = sfmt("%u processes, mode %u, %llu completed, %llu failed", np, mode, (unsigned long long)oks, (unsigned long long)fails);
}
