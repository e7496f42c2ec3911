// C03, C04, C05, C11, C12: stored damage, I/O errors, transient trouble, destination trees, format.
#include "checks.h"
extern "C" mode_t sim_umask(mode_t);

// ---- the print tool as a reader
struct Printed { int rc; string out; };
int run_print(const vector<string>& args) {
  vector<string> v = {"kvtree_print"}; for (auto& a : args) v.push_back(a);
  vector<char*> a; for (auto& s : v) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr);
  extern int optind, opterr; optind = 0; opterr = 0;
  op_begin();
  int rc = CALL(kvtree_print_main, (int)v.size(), a.data());
  out_flush(CUR->proc);              // as at exit
  return rc;
}

// ---------------------------------------------------------------- C03
void run_c03() {
  base_setup();
  HEAP_CAP = 24u << 20;
  GenOpt go; if (chance(W, 1, 15)) go.whuge = 1;
  u32 shape = pickw(W, {6, 2});
  u32 soft = pick(W, 3);
  auto plan = [&]() -> FaultPlan* { return soft == 0 ? gen_plan(SOFT, false) : nullptr; };
  if (shape == 0) {
    string path = pick_prefix(), n = fs_norm(nullptr, path);
    Tree t = gen_tree(go);
    Rng r(pick(W, 1u << 20));
    bool crc = !chance(W, 1, 6);       // without a checksum only safety can be promised
    fs_put(n, enc_file(t, r, crc));
    u32 nd = 1 + pick(W, 3);
    for (u32 i = 0; i < nd; i++) {
      string whole; Rng r2(i); if (i) fs_put(n, whole = enc_file(t, r2, crc));
      Damage d = damage_file(n, false, true);
      bool zero = bytes_of(path).empty();
      int k = (int)pickw(W, {4, 3, 3, 3, 3});
      Tree pre = chance(W, 1, 3) ? gen_small() : Tree();
      in_proc("reader", [&]() {
        if (k == 4) {
          int rc = run_print({fs_norm(nullptr, path)});
          if (rc == 0 && d.must_fail && !zero) violation("wrong-data", sfmt("kvtree_print succeeds on a file that was %s", d.what.c_str()));
          if (rc != 0 && d.kind == 6) violation("append", "kvtree_print fails on a file with bytes appended");
          return;
        }
        kvtree* h = to_lib(pre); string bad;
        int rc = read_op(k, path, h, &bad);
        Tree got = from_lib(h); del_lib(h);
        if (!bad.empty()) violation("descriptor", bad);
        if (zero) { if (rc != KV_OK || got != pre) violation("wrong-data", sfmt("an empty file is not read as an empty tree by %s: %s, %s", RKNAME[k], res(rc).c_str(), tdiff(pre, got).c_str())); return; }
        if (!crc) { COUNT("probe.damage_without_checksum"); if (rc == KV_OK && d.must_fail) violation("wrong-data", sfmt("%s accepts a file without checksum that was %s", RKNAME[k], d.what.c_str())); return; }
        if (rc == KV_OK) {
          if (d.must_fail) violation("wrong-data", sfmt("%s accepts a file that was %s", RKNAME[k], d.what.c_str()));
          if (got != tunion(pre, t)) violation("wrong-data", sfmt("%s of a file that was %s succeeds with other data: %s", RKNAME[k], d.what.c_str(), tdiff(tunion(pre, t), got).c_str()));
          COUNT("probe.damage_harmless");
        } else {
          if (d.kind == 6) violation("append", sfmt("%s fails although bytes were only appended", RKNAME[k]));
          COUNT("probe.damage_detected");
        }
      }, plan());
      check_exits();
      NONTRIV = true; SAMPLE = sfmt("file of %zu bytes, %s, read by %s", enc_file(t, r).size(), d.what.c_str(), k == 4 ? "kvtree_print" : RKNAME[k]);
    }
  } else {
    u32 nr = 1 + pick(W, 5); vector<Tree> v; for (u32 i = 0; i < nr; i++) v.push_back(chance(W, 1, 3) ? gen_tree(go) : gen_small());
    Rng r(pick(W, 1u << 20));
    string prefix = pick_prefix();
    auto files = build_set(prefix, v, r, false);
    string f = files[pick(W, (u32)files.size())];
    string before = bytes_of(f);
    Damage d = damage_file(f, true, true);
    bool changed = bytes_of(f) != before;
    in_proc("reader", [&]() {
      Rd g = read_set(prefix);
      if (g.rc == KV_OK) {
        // a part cut down to nothing reads as an empty tree: its ranks are missing, so the set must be refused
        if (d.must_fail && changed) violation("wrong-data", sfmt("read_scatter_single accepts a set in which %s was %s", f.c_str(), d.what.c_str()));
        if (g.t != rank_tree(v)) violation("wrong-data", sfmt("read_scatter_single of a set in which %s was %s succeeds with other data: %s", f.c_str(), d.what.c_str(), tdiff(rank_tree(v), g.t).c_str()));
        COUNT("probe.damage_harmless");
      } else {
        if (d.kind == 6 || !changed) violation("append", sfmt("read_scatter_single fails although bytes were only appended to %s", f.c_str()));
        COUNT("probe.damage_detected");
      }
    }, plan());
    check_exits();
    NONTRIV = true; SAMPLE = sfmt("set of %u ranks in %zu files, %s %s", nr, files.size(), f.c_str(), d.what.c_str());
  }
}

// ---------------------------------------------------------------- C04
// the stored content of a file: empty / tree / unreadable
static int stored(const string& path, Tree& t) {
  string b; if (!fs_get(fs_norm(nullptr, path), b)) return -1;
  if (b.empty()) { t = Tree(); return 0; }
  Dec d = dec_file(b); if (d.ok) { t = d.t; return 1; }
  if (b.size() >= 24) {              // bytes after the record are ignored
    u64 sz = 0; for (int x = 8; x < 16; x++) sz = sz << 8 | (unsigned char)b[(size_t)x];
    if (sz >= 20 && sz < b.size()) { Dec e = dec_file(b.substr(0, sz)); if (e.ok) { t = e.t; return 1; } }
  }
  return 2;
}
static void seed_file(const string& path, const GenOpt& go) {
  string n = fs_norm(nullptr, path);
  switch (pickw(W, {3, 4, 1, 2})) {
    case 0: break;
    case 1: { Rng r(pick(W, 1u << 20)); fs_put(n, enc_file(gen_tree(go), r)); break; }
    case 2: fs_put(n, ""); break;
    default: fs_put(n, garbage(1 + pick(W, 3000), pick(W, 1000))); break;
  }
}
static void check_written(const char* how, const string& path, const Tree& t, bool durable) {
  string n = fs_norm(nullptr, path), b;
  if (!fs_get(n, b)) violation("false-success", sfmt("%s reported success but %s does not exist", how, path.c_str()));
  Dec d = dec_file(b);
  if (!d.ok) violation("false-success", sfmt("%s reported success but %s does not hold one intact tree: %s (%zu bytes)", how, path.c_str(), d.why.c_str(), b.size()));
  if (d.t != t) violation("false-success", sfmt("%s reported success but %s holds another tree: %s", how, path.c_str(), tdiff(t, d.t).c_str()));
  if (durable) {
    string c; if (!fs_get_durable(n, c) || c != b) violation("false-success", sfmt("%s reported success but the data of %s never reached stable storage", how, path.c_str()));
  }
}
void run_c04() {
  base_setup();
  GenOpt go; if (chance(W, 1, 20)) go.whuge = 1;
  string path = pick_prefix();
  seed_file(path, go);
  if (chance(W, 1, 4)) FS.capacity = 100 + pick(W, 20000);
  FaultPlan* pl = gen_plan((HARD | LOCKF | DIRF) | (chance(W, 1, 3) ? SOFT : 0), false);
  pl->sticky = chance(W, 3, 4);
  if (pl->rate < 100 && chance(W, 1, 2)) pl->rate = 250;
  u32 nops = range(W, 1, 4);
  u32 okops = 0;
  in_proc("user", [&]() {
    for (u32 i = 0; i < nops; i++) {
      if (chance(W, 1, 4)) pl->clear_sticky();
      u32 op = pickw(W, {3, 3, 3, 1, 2, 2, 2, 2, 1, 2});
      if (op < 4) {
        Tree t = gen_tree(go); Rd rd; rd.rc = -100; Tree cur; int st = stored(path, cur);
        auto after_read = [&]() {
          if (rd.rc != KV_OK) return;
          if (st == 2) violation("false-success", "lock_open_read reported success on an unreadable file");
          if (rd.t != cur && st >= 0) violation("false-success", "lock_open_read reported success but delivered other data than the file holds: " + tdiff(cur, rd.t));
        };
        int rc = write_op((int)op, path, t, &rd, after_read);
        if (op == WK_RMW) after_read();
        if (rc == KV_OK) { okops++; check_written(WKNAME[op], path, t, op != WK_FD); }
      } else if (op < 8) {
        int k = (int)op - 4; Tree cur; int st = stored(path, cur);
        Tree pre = chance(W, 1, 3) ? gen_small() : Tree();
        kvtree* h = to_lib(pre); string bad;
        int rc = read_op(k, path, h, &bad);
        Tree got = from_lib(h); del_lib(h);
        if (!bad.empty()) violation("descriptor", bad);
        if (rc == KV_OK) {
          okops++;
          if (st == 2) violation("false-success", sfmt("%s reported success on an unreadable file", RKNAME[k]));
          if (st == -1) { Tree now; if (stored(path, now) != 0) violation("false-success", sfmt("%s reported success on a missing file", RKNAME[k])); cur = Tree(); }
          if (got != tunion(pre, cur)) violation("false-success", sfmt("%s reported success but did not deliver exactly what the file holds: %s", RKNAME[k], tdiff(tunion(pre, cur), got).c_str()));
        }
      } else if (op == 8) {
        string prefix = "/w/set"; static const char* e[] = {"1", "2", "3", ""}; string epf = e[pick(W, 4)];
        int nr = (int)range(W, 1, 6); vector<Tree> v; for (int r = 0; r < nr; r++) v.push_back(gen_small());
        for (auto& f : fs_list(prefix)) fs_rm(f);
        int rc = write_set(prefix, rank_tree(v), nr, epf.empty() ? nullptr : epf.c_str());
        if (rc == KV_OK) {
          okops++;
          for (int dur = 0; dur < 2; dur++) {
            SetWalk w = walk_set(prefix, dur);
            if (!w.ok) violation("false-success", sfmt("write_to_gather reported success but the set is not complete%s: %s", dur ? " on stable storage" : "", w.why.c_str()));
            for (int r = 0; r < nr; r++) if (!w.ranks.count(r) || w.ranks[r] != v[(size_t)r]) violation("false-success", sfmt("write_to_gather reported success but rank %d is not stored as given", r));
          }
        }
      } else {
        string prefix = "/w/rs"; bool have = fs_exists("/w/rs"); 
        if (!have) { vector<Tree> v; u32 nr = 1 + pick(W, 5); for (u32 r = 0; r < nr; r++) v.push_back(gen_small()); Rng r(pick(W, 1000)); build_set(prefix, v, r, false); }
        SetWalk w = walk_set(prefix); if (!w.ok) harness_error("built set: " + w.why);
        Rd g = read_set(prefix);
        if (g.rc == KV_OK) { okops++; Tree want; for (auto& k : w.ranks) want[sfmt("%d", k.first)] = k.second; if (g.t != want) violation("false-success", "read_scatter_single reported success but did not deliver the set: " + tdiff(want, g.t)); }
      }
    }
  }, pl);
  check_exits();
  NONTRIV = pl->fired > 0 || FS.capacity != ~0ull;
  if (okops && pl->fired) COUNT("probe.success_despite_faults");
  SAMPLE = sfmt("%u operations (%u succeeded), %llu hard faults, sticky=%d", nops, okops, (unsigned long long)pl->fired, pl->sticky);
}

// ---------------------------------------------------------------- C05
void run_c05_mpi(); void run_c05_stream();
static void soft_limits(FaultPlan* pl) { pl->max_open = 4; pl->max_rw = 7; pl->sticky = false; }
FaultPlan* transient_plan() {
  FaultPlan* pl = gen_plan(SOFT | M(FK_OPEN) | M(FK_EIO_RW), false); soft_limits(pl);
  if (chance(W, 1, 3)) pl->rate = 700;
  return pl;
}
void run_c05() {
  u32 which = pickw(W, {8, 3, 1}); if (which == 1) { run_c05_mpi(); return; } if (which == 2) { run_c05_stream(); return; }
  base_setup();
  GenOpt go; if (chance(W, 1, 20)) go.whuge = 1;
  string path = pick_prefix(), n = fs_norm(nullptr, path);
  Tree cur; bool ok = true;
  switch (pickw(W, {2, 3, 1})) { case 0: break; case 1: { cur = gen_tree(go); Rng r(pick(W, 1u << 20)); fs_put(n, enc_file(cur, r)); break; } default: fs_put(n, garbage(1 + pick(W, 3000), pick(W, 1000))); ok = false; }
  FaultPlan* pl = transient_plan();
  u32 nops = range(W, 1, 4);
  in_proc("user", [&]() {
    auto must = [&](int rc, const string& what) { if (rc != KV_OK) violation("not-absorbed", sfmt("%s failed although only transient trouble happened", what.c_str())); };
    for (u32 i = 0; i < nops; i++) {
      u32 op = pickw(W, {3, 3, 3, 1, 2, 2, 2, 2, 1, 1});
      if (op < 4) {
        if (op == WK_RMW && !ok) continue;
        Tree t = gen_tree(go); Rd rd; rd.rc = -100; Tree want = cur; if (op == WK_FD) want = Tree();
        auto chk = [&]() { if (op == WK_RMW) { must(rd.rc, "lock_open_read"); if (rd.t != cur) violation("not-absorbed", "lock_open_read delivered other data because of transient trouble: " + tdiff(cur, rd.t)); } };
        int rc = write_op((int)op, path, t, &rd, chk);
        if (op == WK_RMW && rc != KV_OK) must(rd.rc, "lock_open_read");
        must(rc, WKNAME[op]);
        check_written(WKNAME[op], path, t, op != WK_FD);
        cur = t; ok = true;
      } else if (op < 8) {
        int k = (int)op - 4;
        if (!ok || ((k == RK_FILE || k == RK_FD) && !fs_exists(n))) continue;
        Tree pre = chance(W, 1, 3) ? gen_small() : Tree();
        kvtree* h = to_lib(pre); string bad; int rc = read_op(k, path, h, &bad); Tree got = from_lib(h); del_lib(h);
        if (!bad.empty()) violation("descriptor", bad);
        must(rc, RKNAME[k]);
        if (got != tunion(pre, cur)) violation("not-absorbed", sfmt("%s delivered other data because of transient trouble: %s", RKNAME[k], tdiff(tunion(pre, cur), got).c_str()));
      } else if (op == 8) {
        string prefix = "/w/set"; int nr = (int)range(W, 1, 6); vector<Tree> v; for (int r = 0; r < nr; r++) v.push_back(gen_small());
        for (auto& f : fs_list(prefix)) fs_rm(f);
        static const char* e[] = {"1", "2", "3", ""}; string epf = e[pick(W, 4)];
        must(write_set(prefix, rank_tree(v), nr, epf.empty() ? nullptr : epf.c_str()), "write_to_gather");
        SetWalk w = walk_set(prefix); if (!w.ok) violation("not-absorbed", "the set is not complete: " + w.why);
        Rd g = read_set(prefix); must(g.rc, "read_scatter_single");
        if (g.t != rank_tree(v)) violation("not-absorbed", "read_scatter_single delivered other data because of transient trouble: " + tdiff(rank_tree(v), g.t));
      } else if (ok && fs_exists(n)) {
        int rc = run_print({n}); must(rc, "kvtree_print");
      }
    }
  }, pl);
  check_exits();
  NONTRIV = pl->fired + pl->fired_soft > 0;
  SAMPLE = sfmt("%u operations under %llu hard and %llu soft transient faults", nops, (unsigned long long)pl->fired, (unsigned long long)pl->fired_soft);
}

// ---------------------------------------------------------------- C11
void run_c11_mpi(); void run_c11_single();
void run_c11() {
  u32 which = pickw(W, {3, 1, 1}); if (which == 1) { run_c11_mpi(); return; } if (which == 2) { run_c11_single(); return; }
  base_setup(); HEAP_CAP = 24u << 20;
  GenOpt go;
  string path = pick_prefix(), n = fs_norm(nullptr, path);
  seed_file(path, go);
  if (fs_exists(n) && !bytes_of(path).empty() && chance(W, 1, 3)) damage_file(n, true, true);
  FaultPlan* pl = chance(W, 1, 4) ? nullptr : gen_plan(HARD | LOCKF | SOFT, true);
  u32 nops = range(W, 1, 3); u32 fails = 0, oks = 0;
  in_proc("user", [&]() {
    for (u32 i = 0; i < nops; i++) {
      if (pl && chance(W, 1, 3)) pl->clear_sticky();
      int k = (int)pick(W, 3);
      string b = bytes_of(path); Dec d = dec_file(b);
      // a stored tree that overlaps with the destination
      Tree pre;
      switch (pickw(W, {2, 3, 4})) { case 0: break; case 1: pre = gen_tree(go); break;
        default: if (d.ok && !d.t.empty()) { Rng r(pick(W, 1000)); for (auto& kk : d.t.kids) if (r.below(2)) { pre[kk.first]; if (r.below(2)) pre[kk.first][gen_key(r, true, false)]; for (auto& q : kk.second.kids) if (r.below(2)) pre[kk.first][q.first][gen_key(r, true, false)]; } pre[gen_key(r, true, false)]; } }
      kvtree* h = to_lib(pre); string bad;
      int rc = read_op(k, path, h, &bad);
      Tree got = from_lib(h); del_lib(h);
      if (rc != KV_OK) {
        fails++;
        if (got != pre) violation("dest-changed", sfmt("%s failed but the destination changed: %s", RKNAME[k], tdiff(pre, got).c_str()));
        COUNT("probe.failed_reads");
      } else {
        oks++;
        // bytes after the record are ignored
        Tree want = pre; Tree cur; bool known = false;
        { int st = d.ok ? 1 : stored(path, cur); if (d.ok) cur = d.t; known = st == 0 || st == 1; }
        if (known) { tmerge(want, cur); if (got != want) violation("wrong-merge", sfmt("%s succeeded but the destination is not its old contents merged with the stored tree: %s", RKNAME[k], tdiff(want, got).c_str())); }
        COUNT("probe.successful_reads");
      }
    }
  }, pl);
  check_exits();
  NONTRIV = fails + oks > 0;
  SAMPLE = sfmt("%u reads, %u failed", nops, fails);
}

// ---------------------------------------------------------------- C12
// processes (or threads) write the file under its lock at the same time: in the end it is one record, of one of the trees
static void run_c12_conc() {
  bool threads = chance(W, 1, 5);
  base_setup(threads);
  string path = pick_prefix(), n = fs_norm(nullptr, path); GenOpt go; vector<Tree> vals;
  u32 init = pickw(W, {2, 4, 1}); bool garb = init == 2;
  if (init == 1) { Tree t = gen_tree(go); vals.push_back(t); Rng r(pick(W, 1000)); fs_put(n, enc_file(t, r)); }
  if (garb) fs_put(n, garbage(100 + pick(W, 60000), pick(W, 1000)));
  u32 np = 2 + pickw(W, {4, 3, 1}); Proc* shared = threads ? new_proc("threads") : nullptr; u32 writes = 0;
  if (threads) { BB_PREEMPT = chance(W, 1, 3); BB_MEAN = 400; }
  for (u32 i = 0; i < np; i++) {
    Proc* p = threads ? shared : new_proc(sfmt("p%u.", i)); u32 iters = range(W, 1, 3);
    if (!p->plan && chance(W, 1, 3)) p->plan = gen_plan(SOFT, false);
    spawn(p, [&, iters]() {
      for (u32 k = 0; k < iters; k++) {
        if (chance(W, 1, 3)) sleep_us(pick(D, 4000));
        Tree t = chance(W, 1, 3) ? Tree() : chance(W, 1, 2) ? gen_tree(go) : gen_small(); vals.push_back(t);
        int kind = garb || chance(W, 2, 3) ? WK_LOCK : WK_RMW;
        if (write_op(kind, path, t) != KV_OK) violation("format", sfmt("%s failed without hard faults, other processes write the file too", WKNAME[kind]));
        writes++;
      }
    });
  }
  run_all("locked writers");
  check_exits();
  string b; if (!fs_get(n, b)) violation("format", "the file written under its lock does not exist");
  Dec d = dec_file(b);
  if (!d.ok || !d.crc) violation("format", sfmt("after %u locked writes by %u processes the file is not one record of the documented format with a checksum: %s", writes, np, d.why.c_str()));
  bool known = false; for (auto& v : vals) known |= v == d.t;
  if (!known) violation("format", "the file holds a tree nobody wrote");
  NONTRIV = true; SAMPLE = sfmt("%u locked writes by %u %s", writes, np, threads ? "threads" : "processes");
}
void run_c12_set();
void run_c12() {
  { u32 k = pickw(W, {13, 1, 2}); if (k == 1) return run_c12_set(); if (k == 2) return run_c12_conc(); }
  base_setup();
  GenOpt go; if (chance(W, 1, 20)) go.whuge = 1;
  go.wsized = 5;
  string path = pick_prefix(), n = fs_norm(nullptr, path);
  FaultPlan* pl = chance(W, 1, 3) ? gen_plan(SOFT, false) : nullptr;
  u32 nops = range(W, 1, 4);
  seed_file(path, go);
  if (chance(W, 1, 4)) fs_put(n, garbage(10000 + pick(W, 60000), pick(W, 1000)));
  u32 w = 0, r = 0;
  in_proc("user", [&]() {
    for (u32 i = 0; i < nops; i++) {
      u32 op = pickw(W, {3, 3, 3, 1, 1, 5});
      // rarely more keys at one level than fit 16 bits (only written: reading merges key by key)
      bool wide = pickw(W, {2500, 1}) == 1; Tree wt; if (wide) { if (op > 4) op = 4; if (op == WK_RMW) op = 0; STEP_BUDGET = 2000000000ull; u32 k = 65533 + pick(W, 6); for (u32 q = 0; q < k; q++) wt[sfmt("%u", q)]; }
      if (op < 4) {
        Tree t = wide ? wt : gen_tree(go); Rd rd;
        if (op == WK_RMW) { Tree c; if (stored(path, c) == 2) continue; }
        int rc = write_op((int)op, path, t, &rd);
        if (rc != KV_OK) violation("format", sfmt("%s failed without faults", WKNAME[op]));
        w++;
        string b = bytes_of(path); Dec d = dec_file(b);
        if (!d.ok) violation("format", sfmt("the file written by %s is not one record of the documented format: %s", WKNAME[op], d.why.c_str()));
        if (!d.crc) violation("format", sfmt("the file written by %s has no checksum", WKNAME[op]));
        if (d.t != t) violation("format", sfmt("the file written by %s encodes another tree: %s", WKNAME[op], tdiff(t, d.t).c_str()));
      } else if (op == 4) {
        Tree t = wide ? wt : gen_tree(go); kvtree* h = to_lib(t); void* buf = nullptr; size_t sz = 0;
        int rc = CALL(kvtree_write_persist, &buf, &sz, h);
        if (rc != KV_OK) violation("format", "kvtree_write_persist failed");
        Dec d = dec_file(string((char*)buf, sz));
        if (!d.ok || !d.crc || d.t != t) violation("format", "the record made by kvtree_write_persist is not in the documented format: " + d.why);
        { LibCall lc("free"); heap_free(buf); }
        del_lib(h); w++;
      } else {
        Tree t = gen_tree(go); Rng rr(pick(W, 1u << 20)); bool crc = !chance(W, 1, 3), sh = !chance(W, 1, 4);
        string b = enc_file(t, rr, crc, sh);
        fs_put(n, b);
        int k = (int)pick(W, RK_N);
        Rd g = read_fresh(k, path); r++;
        string y = why_not(t, g);
        if (!y.empty()) violation("format", sfmt("a file in the documented format (%s checksum, elements %s) is not read back by %s: %s", crc ? "with" : "without", sh ? "shuffled" : "in order", RKNAME[k], y.c_str()));
        if (bytes_of(path) != b) violation("format", sfmt("%s changed the file it read", RKNAME[k]));
      }
      if (wide) fs_rm(n);
    }
  }, pl);
  check_exits();
  NONTRIV = w + r > 0;
  SAMPLE = sfmt("%u files written and decoded independently, %u foreign files read", w, r);
}
