// C13-C20 and the collective parts of C05 and C11: jobs of ranks over the simulated MPI library.
#include "checks.h"
FaultPlan* transient_plan();
static string rk(int r) { return sfmt("%d", r); }

// ---------------------------------------------------------------- jobs
int pick_ranks(u32 most) {
  static const int n[] = {2, 1, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 23, 33, 40, 66, 129, 260};
  u32 k = pickw(W, {200, 80, 200, 160, 160, 120, 120, 120, 80, 80, 40, 40, 40, 40, 40, 20, 20, 10, 2, 1});
  return std::min(n[k], (int)most);
}
Job* make_job(int n, const string& name) {
  Job* j = mpi_new_job(n, name);
  static const u32 md[] = {0, 0, 30, 3000}; static const u32 lc[] = {0, 1, 2, 4};
  j->maxdelay = md[pick(W, 4)]; j->eager_num = pick(W, 5); j->late_copy = lc[pick(W, 4)];
  return j;
}
vector<int> some_ranks(int n, bool all) {   // a communicator's members, in some order
  vector<int> v; for (int i = 0; i < n; i++) v.push_back(i);
  u32 how = pickw(W, {4, 2, all ? 0u : 3u});
  if (how >= 1) { Rng r(pick(W, 1u << 16)); for (int i = n - 1; i > 0; i--) std::swap(v[(size_t)i], v[(size_t)r.below((u64)i + 1)]); }
  if (how == 2) v.resize((size_t)range(W, 1, (u32)n));
  return v;
}
void run_ranks(Job* j, const vector<int>& members, const std::function<void(int)>& body, const char* what) {
  // one rank may be minutes behind the others
  if (members.size() > 1 && chance(W, 1, 16)) { Proc* p = j->procs[(size_t)members[pick(W, (u32)members.size())]]; p->nap_at = chance(W, 1, 2) ? 0 : (long)pick(W, 30); p->nap_us = 1000000 + 1000ull * pick(W, (u32)(600000 / members.size())); }
  for (size_t i = 0; i < members.size(); i++) { int me = (int)i; spawn(j->procs[(size_t)members[i]], [=]() { body(me); }); }
  run_all(what);
}
static void stalls(Job* j) { if (chance(W, 1, 3)) for (Proc* p : j->procs) p->plan = gen_plan(M(FK_STALL), false); }
static void ok_rc(int rc, const char* what) { if (rc != KV_OK) violation("comm-failed", sfmt("%s reported failure", what)); }
static void same(const Tree& want, const Tree& got, const char* sig, const string& what) { if (want != got) violation(sig, what + ": " + tdiff(want, got)); }
// a tree of exactly s packed bytes (s is raised to what one key needs)
static Tree sized(u64 s) {
  Tree t; t["k"]; u64 base = tpacked(t); if (s <= base) return t;
  Tree u; u["k" + string(s - base, 'x')]; return u;
}
vector<Tree> rank_data(int n) {
  vector<Tree> v; GenOpt go; u32 style = pickw(W, {4, 3, 2, 2, 2});
  u64 room = 4u << 20;                        // bytes of large trees in one set
  u64 sz = style == 3 ? 20 + pick(W, 200) : 0;
  for (int i = 0; i < n; i++) switch (style) {
    case 0: v.push_back(gen_small()); break;
    case 1: { Tree t = chance(W, 1, 3) ? gen_tree(go) : gen_small(); u64 b = tpacked(t); if (b > 1000) { if (b > room) t = Tree(); else room -= b; } v.push_back(t); break; }
    case 2: v.push_back(chance(W, 1, 2) ? Tree() : gen_small()); break;
    case 3: v.push_back(sized(sz)); break;
    default: v.push_back(sized(12 + pick(W, 300))); break;
  }
  return v;
}
unsigned long pick_seg() { static const unsigned long s[] = {0, 120, 160, 250, 600, 3000}; return s[pickw(W, {3, 3, 2, 2, 2, 1})]; }

// ---------------------------------------------------------------- C13
void gen_shift(Step& s, int n, const GenOpt& go, bool self) {
  s.to.assign((size_t)n, -1); s.from.assign((size_t)n, -1);
  vector<int> dst; for (int i = 0; i < n; i++) dst.push_back(i);
  Rng r(pick(W, 1u << 16)); u32 how = pick(W, 4);
  if (how == 0) { int k = 1 + (int)r.below((u64)n); for (int i = 0; i < n; i++) dst[(size_t)i] = (i + k) % n; }
  else for (int i = n - 1; i > 0; i--) std::swap(dst[(size_t)i], dst[(size_t)r.below((u64)i + 1)]);
  for (int i = 0; i < n; i++) {
    if (how >= 2 && r.below(3) == 0) continue;
    int d = dst[(size_t)i]; if (d == i && !self) continue;
    s.to[(size_t)i] = d; s.from[(size_t)d] = i;
  }
  for (int i = 0; i < n; i++) { s.ts.push_back(chance(W, 1, 4) ? gen_tree(go) : gen_small()); s.pres.push_back(chance(W, 1, 2) ? gen_small() : Tree()); }
}
void do_send(const Step& s, MPI_Comm c) {
  kvtree* h = to_lib(s.t); op_begin(); int rc = CALL(kvtree_send, h, s.b, c); ok_rc(rc, "kvtree_send");
  same(s.t, from_lib(h), "sender-changed", "kvtree_send changed the tree it sent"); del_lib(h);
}
void do_recv(const Step& s, MPI_Comm c) {
  kvtree* h = to_lib(s.pre); op_begin(); int rc = CALL(kvtree_recv, h, s.a, c); ok_rc(rc, "kvtree_recv");
  same(s.t, from_lib(h), "wrong-copy", sfmt("rank %d did not receive exactly what rank %d sent", s.b, s.a)); del_lib(h);
}
void do_shift(const Step& s, int me, MPI_Comm c) {
  size_t i = (size_t)me; int to = s.to[i], from = s.from[i];
  kvtree* hs = to_lib(s.ts[i]); kvtree* hr = to_lib(s.pres[i]);
  op_begin(); int rc = CALL(kvtree_sendrecv, hs, to < 0 ? MPI_PROC_NULL : to, hr, from < 0 ? MPI_PROC_NULL : from, c); ok_rc(rc, "kvtree_sendrecv");
  same(s.ts[i], from_lib(hs), "sender-changed", "kvtree_sendrecv changed the tree it sent");
  same(from < 0 ? s.pres[i] : s.ts[(size_t)from], from_lib(hr), "wrong-copy", from < 0 ? sfmt("kvtree_sendrecv without a source changed rank %d's receive tree", me) : sfmt("rank %d did not receive exactly what rank %d sent with kvtree_sendrecv", me, from));
  del_lib(hs); del_lib(hr);
}
void do_bcast(const Step& s, int me, MPI_Comm c) {
  kvtree* h = to_lib(me == s.a ? s.t : s.pres[(size_t)me]);
  op_begin(); int rc = CALL(kvtree_bcast, h, s.a, c); ok_rc(rc, "kvtree_bcast");
  same(s.t, from_lib(h), me == s.a ? "sender-changed" : "wrong-copy", sfmt("rank %d does not hold exactly the tree rank %d broadcast", me, s.a)); del_lib(h);
}
// null partners, as at the ends of a chain of ranks: nothing is sent, nothing arrives
void do_null(const Step& s, int me, MPI_Comm c) {
  if (me == s.a) { kvtree* h = to_lib(s.t); op_begin(); ok_rc(CALL(kvtree_send, h, MPI_PROC_NULL, c), "kvtree_send"); same(s.t, from_lib(h), "sender-changed", "kvtree_send to a null partner changed the tree"); del_lib(h); }
  if (me == s.b) {
    kvtree* h = to_lib(s.pre); op_begin(); CALL(kvtree_recv, h, MPI_PROC_NULL, c); Tree t = from_lib(h); del_lib(h);
    if (!t.empty()) same(s.pre, t, "wrong-copy", "kvtree_recv from a null partner delivered something");
  }
}
void run_c13() {
  base_setup(); GenOpt go; if (chance(W, 1, 15)) go.whuge = 1;
  int n = pick_ranks(129); Job* j = make_job(n, "rank"); stalls(j);
  vector<int> m = some_ranks(n, false); int N = (int)m.size(); MPI_Comm c = mpi_make_comm(j, m);
  u32 ns = range(W, 1, 6); vector<Step> st;
  for (u32 i = 0; i < ns; i++) {
    Step s; s.kind = (int)pickw(W, {12, 12, 8, 1});
    if (s.kind == 3) { s.a = (int)pick(W, (u32)N); s.b = (int)pick(W, (u32)N); s.t = gen_small(); s.pre = chance(W, 1, 2) ? gen_small() : Tree(); st.push_back(s); continue; }
    if (s.kind == 0 && N < 2) s.kind = 2;
    if (s.kind == 0) {
      s.a = (int)pick(W, (u32)N); s.b = (int)pick(W, (u32)N - 1); if (s.b >= s.a) s.b++;
      u32 burst = range(W, 1, 3);
      for (u32 k = 0; k < burst; k++) { s.t = gen_tree(go); s.pre = chance(W, 1, 2) ? gen_small() : Tree(); st.push_back(s); }
    } else if (s.kind == 1) { gen_shift(s, N, go, true); st.push_back(s); }
    else { s.a = (int)pick(W, (u32)N); s.t = gen_tree(go); for (int r = 0; r < N; r++) s.pres.push_back(chance(W, 1, 2) ? gen_small() : Tree()); st.push_back(s); }
  }
  run_ranks(j, m, [&](int me) {
    for (Step& s : st) switch (s.kind) {
      case 0: if (me == s.a) do_send(s, c); if (me == s.b) do_recv(s, c); break;
      case 1: do_shift(s, me, c); break;
      case 2: do_bcast(s, me, c); break;
      default: do_null(s, me, c);
    }
  }, "send, receive and broadcast");
  check_exits();
  NONTRIV = N > 1; SAMPLE = sfmt("%d of %d ranks, %zu steps, eager %u/4, delay up to %u us", N, n, st.size(), j->eager_num, j->maxdelay);
}

// ---------------------------------------------------------------- C14
void gen_exchange(Step& s, int n) {
  s.q.assign((size_t)n, {}); s.want.assign((size_t)n, Tree());
  u32 style = pickw(W, {3, 1, 2, 2, 2, 3, 3}); Rng r(pick(W, 1u << 20)); int one = (int)r.below((u64)n), k = (int)r.below((u64)n);
  GenOpt go; u64 room = 2u << 20;             // bytes of large trees in one exchange
  if (n <= 12 && chance(W, 1, 40)) { go.whuge = 8; room = 5u << 20; }
  for (int i = 0; i < n; i++) {
    vector<int> d;
    switch (style) {
      case 0: d.push_back((int)r.below((u64)n)); break;
      case 1: break;
      case 2: d.push_back(one); break;
      case 3: if (i == one) for (int x = 0; x < n; x++) d.push_back(x); break;
      case 4: for (int x = 0; x < n; x++) if (n <= 100 || i < 10 || r.below((u64)n * (u64)n / 5000) == 0) d.push_back(x); break;
      case 5: for (int x = 0; x < n; x++) if (r.below(n <= 100 ? 4 : 8) == 0) d.push_back(x); break;
      default: d.push_back((i + k) % n); if (r.below(2)) d.push_back((i + n - k) % n); break;
    }
    if (!d.empty() && chance(W, 1, 5)) d.push_back(d[r.below(d.size())]);
    for (int x : d) {
      Tree t = chance(W, 1, go.whuge ? 3 : 12) ? gen_tree(go) : chance(W, 1, 6) ? Tree() : kv(token("m"), rk(i) + ">" + rk(x));
      u64 sz = tpacked(t); if (sz > 1000) { if (sz > room) t = Tree(); else room -= sz; }
      if (chance(W, 1, 4)) t["shared"][rk(i)];
      s.q[(size_t)i].push_back({x, t});
      tmerge(s.want[(size_t)x][rk(i)], t);
    }
  }
  for (int i = 0; i < n; i++) { Tree p; if (chance(W, 1, 3)) { p = gen_small(); if (chance(W, 1, 2)) p[rk((int)pick(W, (u32)n))]["before"]; } s.pres.push_back(p); }
}
void do_exchange(const Step& s, int me, MPI_Comm c) {
  size_t i = (size_t)me; kvtree* hs = to_lib(Tree()); kvtree* hr = to_lib(s.pres[i]); Tree queued;
  for (auto& e : s.q[i]) {
    kvtree* msg = to_lib(e.second); int rc = CALL(kvtree_exchange_sendq, hs, e.first, msg); ok_rc(rc, "kvtree_exchange_sendq");
    same(e.second, from_lib(msg), "sender-changed", "kvtree_exchange_sendq changed the message"); del_lib(msg);
    tmerge(queued[rk(e.first)], e.second);
  }
  same(queued, from_lib(hs), "wrong-delivery", "the send tree does not hold what was queued");
  op_begin(); int rc;
  if (s.a == 0) rc = CALL(kvtree_exchange, hs, hr, c); else rc = CALL(kvtree_exchange_direction, hs, hr, c, s.a - 1);
  ok_rc(rc, "kvtree_exchange");
  same(queued, from_lib(hs), "sender-changed", "the exchange changed the send tree");
  same(tunion(s.pres[i], s.want[i]), from_lib(hr), "wrong-delivery", sfmt("rank %d did not receive exactly what was addressed to it", me));
  del_lib(hs); del_lib(hr);
}
void run_c14() {
  base_setup();
  int n = pick_ranks(260); Job* j = make_job(n, "rank"); stalls(j);
  vector<int> m = some_ranks(n, false); int N = (int)m.size(); MPI_Comm c = mpi_make_comm(j, m);
  u32 ns = range(W, 1, 3); vector<Step> st(ns); u64 msgs = 0;
  for (Step& s : st) { s.a = (int)pickw(W, {3, 2, 2}); gen_exchange(s, N); for (auto& q : s.q) msgs += q.size(); }
  run_ranks(j, m, [&](int me) { for (Step& s : st) do_exchange(s, me, c); }, "exchange");
  check_exits();
  NONTRIV = N > 1 && msgs > 0; SAMPLE = sfmt("%d of %d ranks, %u exchanges, %llu trees queued", N, n, ns, (unsigned long long)msgs);
}

// ---------------------------------------------------------------- C15
static void app_op(const char* n, const std::function<void()>& f) { string o = CUR->op; CUR->op = n; f(); CUR->op = o; }
void run_c15() {
  base_setup(); GenOpt go; if (chance(W, 1, 20)) go.whuge = 3;
  int n = pick_ranks(40); Job* j = make_job(n, "rank"); 
  if (chance(W, 1, 2)) for (Proc* p : j->procs) p->plan = gen_plan(SOFT, false);
  // gathers and scatters may fail, on any of the ranks, but still have to come to an end on all of them
  bool trouble = chance(W, 1, 5);
  if (trouble) { int one = (int)pick(W, (u32)n); bool few = chance(W, 1, 2); u32 mask = HARD | (chance(W, 1, 3) ? SOFT : 0); for (int i = 0; i < n; i++) if (i == one || (!few && chance(W, 1, 3))) { FaultPlan* q = gen_plan(mask, true); if (chance(W, 1, 2)) q->rate = 400; j->procs[(size_t)i]->plan = q; } }
  vector<vector<int>> mem; vector<MPI_Comm> cm; vector<int> all; for (int i = 0; i < n; i++) all.push_back(i);
  mem.push_back(some_ranks(n, true)); mem.push_back(some_ranks(n, false)); mem.push_back(all);
  for (auto& m : mem) cm.push_back(mpi_make_comm(j, m));
  MPI_Comm appc = cm[2];                      // the application's own communicator
  j->segsize = pick_seg();
  u32 ns = range(W, 2, 8); vector<Step> st; u32 ids = 0; map<int, vector<Tree>> stored;
  bool used0 = false; struct Open { Step s; u32 due; }; vector<Open> open;
  auto flush = [&](u32 i) { for (auto it = open.begin(); it != open.end();) { if (it->due <= i) { Step r = it->s; r.kind = 8; st.push_back(r); it = open.erase(it); } else ++it; } };
  for (u32 i = 0; i < ns; i++) {
    flush(i);
    Step s; s.kind = (int)(trouble ? pickw(W, {1, 1, 1, 1, 4, 4, 0, 2}) : pickw(W, {2, 2, 2, 3, 2, 1, 0, 3})); s.comm = (int)pick(W, 2); int N = (int)mem[(size_t)s.comm].size();
    if (s.kind == 0 && N < 2) s.kind = 2;
    if (s.kind == 7 && n < 2) s.kind = 2;
    switch (s.kind) {
      case 0: s.a = (int)pick(W, (u32)N); s.b = (int)pick(W, (u32)N - 1); if (s.b >= s.a) s.b++; s.t = gen_tree(go); break;
      case 1: gen_shift(s, N, go, true); break;
      case 2: s.a = (int)pick(W, (u32)N); s.t = gen_tree(go); s.pres.assign((size_t)N, Tree()); break;
      case 3: s.a = (int)pickw(W, {3, 2, 2}); gen_exchange(s, N); break;
      case 4: s.prefix = sfmt("/w/set%d", s.comm); s.ts = rank_data(N); stored[s.comm] = s.ts; break;
      case 5: if (!stored.count(s.comm) && trouble) { s.prefix = sfmt("/w/set%d", s.comm); s.ts.assign((size_t)N, Tree()); break; }
              if (!stored.count(s.comm)) { s.kind = 2; s.t = gen_small(); s.pres.assign((size_t)N, Tree()); break; }
              s.prefix = sfmt("/w/set%d", s.comm); s.ts = stored[s.comm]; break;
      case 7: { // an application message that is in flight during later steps; on the library's communicator with another tag, or on its own with any tag
        s.comm = chance(W, 1, 2) ? 2 : s.comm; N = (int)mem[(size_t)s.comm].size(); if (N < 2) { s.comm = 2; N = n; }
        s.a = (int)pick(W, (u32)N); s.b = (int)pick(W, (u32)N - 1); if (s.b >= s.a) s.b++;
        s.id = ids++; s.tag = s.comm == 2 && !used0 ? 0 : 9000 + (int)s.id; if (!s.tag) used0 = true; s.t = kv("app", sfmt("payload %u", s.id));
        open.push_back({s, i + 1 + pick(W, 3)}); break; }
    }
    st.push_back(s);
  }
  flush(~0u);
  map<int, map<u32, std::pair<MPI_Request, string>>> inflight;
  run_ranks(j, all, [&](int world) {
    auto rank_in = [&](int comm) { auto& m = mem[(size_t)comm]; for (size_t i = 0; i < m.size(); i++) if (m[i] == world) return (int)i; return -1; };
    for (Step& s : st) {
      int me = rank_in(s.comm); if (me < 0) continue; MPI_Comm c = cm[(size_t)s.comm];
      switch (s.kind) {
        case 0: if (me == s.a) do_send(s, c); if (me == s.b) do_recv(s, c); break;
        case 1: do_shift(s, me, c); break;
        case 2: do_bcast(s, me, c); break;
        case 3: do_exchange(s, me, c); break;
        case 4: { kvtree* h = to_lib(s.ts[(size_t)me]); op_begin(); int rc = CALL(kvtree_write_gather, s.prefix.c_str(), h, c); if (trouble) COUNT(rc == KV_OK ? "probe.troubled_ok" : "probe.troubled_failed"); else ok_rc(rc, "kvtree_write_gather"); del_lib(h); break; }
        case 5: { kvtree* h = to_lib(Tree()); op_begin(); int rc = CALL(kvtree_read_scatter, s.prefix.c_str(), h, c); if (!trouble) { ok_rc(rc, "kvtree_read_scatter"); same(s.ts[(size_t)me], from_lib(h), "wrong-copy", "scatter read delivered other data"); } else COUNT(rc == KV_OK ? "probe.troubled_ok" : "probe.troubled_failed"); del_lib(h); break; }
        case 7: if (me == s.a) app_op("app:isend", [&]() {
            auto& e = inflight[world][s.id]; e.second = sfmt("application message %u", s.id);
            MPI_Isend(e.second.data(), (int)e.second.size(), MPI_BYTE, s.b, s.tag, c, &e.first); }); break;
        case 8:
          if (me == s.b) app_op("app:recv", [&]() {
            string b(64, '?'); MPI_Status sta; MPI_Recv(&b[0], 64, MPI_BYTE, s.a, s.tag, c, &sta); int k; MPI_Get_count(&sta, MPI_BYTE, &k); b.resize((size_t)k);
            if (b != sfmt("application message %u", s.id)) violation("app-message", sfmt("the application's message %u was disturbed: received '%s'", s.id, b.c_str())); COUNT("probe.app_messages"); });
          if (me == s.a) app_op("app:wait", [&]() { auto& e = inflight[world][s.id]; MPI_Status sta; MPI_Wait(&e.first, &sta); });
          break;
      }
    }
  }, "mixed communication program");
  (void)appc;
  check_exits();
  string l = mpi_leftovers(j); if (!l.empty()) violation("mpi-leftover", l);
  NONTRIV = n > 1; SAMPLE = sfmt("%d ranks, communicators of %zu and %zu, %zu steps, eager %u/4, delay up to %u us, %u application messages", n, mem[0].size(), mem[1].size(), st.size(), j->eager_num, j->maxdelay, ids);
}

// ---------------------------------------------------------------- gather and scatter
void gather_body(const string& prefix, const vector<Tree>& v, int me, MPI_Comm c, Verdicts& out) {
  kvtree* h = to_lib(v[(size_t)me]); op_begin();
  int rc = CALL(kvtree_write_gather, prefix.c_str(), h, c); out.rc[(size_t)me] = rc;
  note(sfmt("rank %d: write_gather(%s) -> %s", me, prefix.c_str(), res(rc).c_str())); del_lib(h);
}
void scatter_body(const string& prefix, const Tree& pre, int me, MPI_Comm c, Verdicts& out, vector<Tree>& got) {
  kvtree* h = to_lib(pre); op_begin();
  int rc = CALL(kvtree_read_scatter, prefix.c_str(), h, c); out.rc[(size_t)me] = rc;
  note(sfmt("rank %d: read_scatter(%s) -> %s", me, prefix.c_str(), res(rc).c_str())); got[(size_t)me] = from_lib(h); del_lib(h);
}
vector<Tree> pres_of(int n) { vector<Tree> p; for (int i = 0; i < n; i++) p.push_back(chance(W, 1, 4) ? gen_small() : Tree()); return p; }
u64 fired_of(Job* j) { u64 f = 0; for (Proc* p : j->procs) if (p->plan) f += p->plan->fired; return f; }
vector<FaultPlan*> plans_for(Job* j, u32 mask, bool sticky) {
  vector<FaultPlan*> v; u32 who = pickw(W, {3, 3, 2}); int one = (int)pick(W, (u32)j->procs.size());
  for (size_t i = 0; i < j->procs.size(); i++) { if (who == 0 && (int)i != one) continue; if (who == 2 && chance(W, 1, 2)) continue; j->procs[i]->plan = gen_plan(mask, sticky); v.push_back(j->procs[i]->plan); }
  return v;
}
// scatter an existing set and require exactly the data
static void scatter_exact(const string& prefix, const vector<Tree>& v, const char* sig, const string& when) {
  int n = (int)v.size(); Job* j = make_job(n, "reader"); vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m);
  Verdicts vd; vd.rc.assign((size_t)n, -100); vector<Tree> got((size_t)n), pre = pres_of(n);
  run_ranks(j, m, [&](int me) { scatter_body(prefix, pre[(size_t)me], me, c, vd, got); }, "scatter read");
  check_exits();
  for (int r = 0; r < n; r++) {
    if (vd.rc[(size_t)r] != KV_OK) violation(sig, sfmt("%s: the scatter read of %s fails on rank %d of %d", when.c_str(), prefix.c_str(), r, n));
    same(tunion(pre[(size_t)r], v[(size_t)r]), got[(size_t)r], sig, sfmt("%s: rank %d does not get back its tree", when.c_str(), r));
  }
}
void run_c16() {
  base_setup();
  u32 shape = pickw(W, {397, 4, 3}); bool deep = shape == 1;       // files of one rank, and maps of two or three entries: many levels
  bool big = shape == 2;                    // segments of their normal size
  int n = deep ? 60 + (int)pick(W, 80) : big ? 2 + (int)pick(W, 6) : pick_ranks(260); Job* j = make_job(n, "rank"); j->segsize = deep ? 120 : big ? 0 : pick_seg();
  if (chance(W, 1, 3)) for (Proc* p : j->procs) p->plan = gen_plan(SOFT, false);
  // split the job into groups with prefixes of their own, and perhaps into others later
  static const char* names[] = {"/w/set", "/w/set2", "/w/set.0", "/w/sub.d", "rel", "./set.1.0x"};
  struct Phase { vector<vector<int>> grp; vector<string> prefix; vector<MPI_Comm> cm; u32 rounds = 1; vector<vector<vector<Tree>>> data, pre, got; vector<vector<Verdicts>> vw, vr; };
  u32 np = n >= 2 && !deep && chance(W, 1, 4) ? 2 : 1, off = pick(W, 6); vector<Phase> ph(np); bool samejob = chance(W, 1, 2); u32 oks = 0, groups = 0;
  for (u32 f = 0; f < np; f++) {
    Phase& P = ph[f];
    u32 ng = n >= 2 && !deep ? 1 + (np == 2 ? pickw(W, {1, 4, 2}) : pickw(W, {4, 2, 1})) : 1; P.grp.resize(ng); vector<int> order = some_ranks(n, true);
    bool even = chance(W, 1, 2);
    for (size_t i = 0; i < order.size(); i++) P.grp[i < ng ? i : even ? i % ng : pick(W, ng)].push_back(order[i]);
    for (auto it = P.grp.begin(); it != P.grp.end();) if (it->empty()) it = P.grp.erase(it); else ++it;
    ng = (u32)P.grp.size(); groups += ng;
    for (u32 g = 0; g < ng; g++) { P.prefix.push_back(names[(g + off + 3 * f) % 6]); P.cm.push_back(mpi_make_comm(j, P.grp[g])); }
    if (f == 0 && !pickw(W, {1, 39})) P.prefix[0] = long_prefix();
    P.rounds = deep ? 1 : range(W, 1, 2); P.data.resize(P.rounds); P.pre.resize(P.rounds); P.vw.resize(P.rounds); P.vr.resize(P.rounds); P.got.resize(P.rounds);
    for (u32 k = 0; k < P.rounds; k++) for (u32 g = 0; g < ng; g++) {
      size_t N = P.grp[g].size();
      P.data[k].push_back(deep || big ? vector<Tree>() : rank_data((int)N));
      if (big) { u32 way = pick(W, 3); for (size_t i = 0; i < N; i++) P.data[k][g].push_back(sized(way == 0 ? 200000 + pick(W, 900000) : way == 1 ? (1u << (18 + pick(W, 3))) - 12 + pick(W, 25) : 20 + pick(W, 2) * 1048000 + pick(W, 1000))); COUNT("probe.normal_segments"); }
      if (deep) for (size_t i = 0; i < N; i++) P.data[k][g].push_back(sized(110 + pick(W, 60)));
      P.pre[k].push_back(pres_of((int)N));
      Verdicts v; v.rc.assign(N, -100); P.vw[k].push_back(v); P.vr[k].push_back(v); P.got[k].push_back(vector<Tree>(N));
    }
  }
  vector<int> all; for (int i = 0; i < n; i++) all.push_back(i);
  run_ranks(j, all, [&](int world) {
    for (Phase& P : ph) for (size_t g = 0; g < P.grp.size(); g++) for (size_t i = 0; i < P.grp[g].size(); i++) if (P.grp[g][i] == world) {
      int me = (int)i;
      for (u32 k = 0; k < P.rounds; k++) {
        gather_body(P.prefix[g], P.data[k][g], me, P.cm[g], P.vw[k][g]);
        if (samejob && P.vw[k][g].rc[i] == KV_OK) scatter_body(P.prefix[g], P.pre[k][g][i], me, P.cm[g], P.vr[k][g], P.got[k][g]);
      }
    }
  }, "gather and scatter");
  check_exits();
  for (Phase& P : ph) for (size_t g = 0; g < P.grp.size(); g++) for (u32 k = 0; k < P.rounds; k++) {
    if (!P.vw[k][g].all(KV_OK)) continue;
    oks++;
    if (samejob) for (size_t i = 0; i < P.grp[g].size(); i++) {
      if (P.vr[k][g].rc[i] != KV_OK) violation("not-returned", sfmt("the gather write of %s succeeded but the scatter read fails on rank %zu of %zu", P.prefix[g].c_str(), i, P.grp[g].size()));
      same(tunion(P.pre[k][g][i], P.data[k][g][i]), P.got[k][g][i], "not-returned", sfmt("rank %zu of %zu does not get back the tree it contributed to %s", i, P.grp[g].size(), P.prefix[g].c_str()));
    }
  }
  for (Phase& P : ph) for (size_t g = 0; g < P.grp.size(); g++) if (P.vw[P.rounds - 1][g].all(KV_OK)) scatter_exact(P.prefix[g], P.data[P.rounds - 1][g], "not-returned", "after a successful gather write");
  NONTRIV = oks > 0 && n > 1; SAMPLE = sfmt("%d ranks in %u groups of %u partitions, segment %lu, %u successful gather writes", n, groups, np, j->segsize, oks);
}

// ---------------------------------------------------------------- C17
void set_must_hold(const string& prefix, const vector<Tree>& v, bool durable, const char* sig, const string& what) {
  SetWalk w = walk_set(prefix, durable);
  if (!w.ok) violation(sig, what + " but the set is not whole" + (durable ? " on stable storage" : "") + ": " + w.why);
  if (w.nranks != (int)v.size()) violation(sig, sfmt("%s but the set records %d ranks instead of %zu", what.c_str(), w.nranks, v.size()));
  for (size_t r = 0; r < v.size(); r++) {
    if (!w.ranks.count((int)r)) violation(sig, sfmt("%s but rank %zu is missing from the set%s", what.c_str(), r, durable ? " on stable storage" : ""));
    same(v[r], w.ranks[(int)r], sig, sfmt("%s but rank %zu is not stored as given%s", what.c_str(), r, durable ? " on stable storage" : ""));
  }
}
void run_c17() {
  base_setup();
  int n = pick_ranks(40); Job* j = make_job(n, "rank"); j->segsize = pick_seg();
  vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m);
  string prefix = pick_prefix(); vector<Tree> v = rank_data(n);
  if (chance(W, 1, 5)) { Rng r(pick(W, 1000)); vector<Tree> old = rank_data(n); build_set(prefix, old, r, chance(W, 1, 2)); }
  bool crash = chance(W, 1, 5);
  u32 mask = pickw(W, {5, 2, 1}) == 0 ? M(FK_EIO_RW) | M(FK_ZERO_WRITE) | M(FK_ENOSPC) | M(FK_OPEN) | M(FK_FSYNC) | M(FK_CLOSE) | M(FK_LSEEK) | M(FK_FTRUNC) : chance(W, 1, 2) ? (HARD | SOFT) : SOFT;
  auto ps = plans_for(j, mask, true);
  for (FaultPlan* p : ps) { if (p->rate < 100 && chance(W, 1, 3)) p->rate = 300; if (chance(W, 1, 3)) p->budget = 1 + (int)pick(W, 3); if (crash) { p->mask |= M(FK_KILL); p->killrate = 150; } }
  if (chance(W, 1, 8)) FS.capacity = 100 + pick(W, 3000);
  // something that is not a file stands where one of the files of the set goes
  bool obst = chance(W, 1, 8);
  if (obst) {
    string at = fs_norm(nullptr, prefix); u32 k = pick(W, 4); if (k == 1) at += ".0.0"; if (k == 2) at += ".1.0"; if (k == 3) at += sfmt(".0.%d", (int)pick(W, (u32)n));
    if (fs_exists(at)) fs_rm(at);
    fs_mkdir(at); note("a directory named " + at); COUNT("fault.directory_in_the_way");
    if (chance(W, 1, 2)) for (FaultPlan* p : ps) p->mask = 0;
  }
  Verdicts vd; vd.rc.assign((size_t)n, -100);
  run_ranks(j, m, [&](int me) { gather_body(prefix, v, me, c, vd); }, "gather write");
  check_exits();
  bool dead = false; for (Proc* p : j->procs) dead |= p->killed;
  u64 f = fired_of(j); bool full = FS.capacity != ~0ull || obst;
  bool ok = false; for (int r : vd.rc) ok |= r == KV_OK;
  if (!dead && !vd.unanimous()) violation("not-unanimous", "the gather write did not return the same result on every rank:" + vd.show());
  if (dead) { bool fl = false; for (int r : vd.rc) fl |= r != KV_OK && r != -100; if (ok && fl) violation("not-unanimous", "the gather write returned different results on the ranks that finished:" + vd.show()); }
  if (ok) {
    set_must_hold(prefix, v, false, "false-success", "the gather write reported success");
    set_must_hold(prefix, v, true, "false-success", "the gather write reported success");
    COUNT("probe.gather_success"); if (f) COUNT("probe.gather_success_despite_faults");
    if (chance(W, 1, 2)) { fs_power_fail(); POWER_LOST = false; note("power failure"); FS.capacity = ~0ull; scatter_exact(prefix, v, "false-success", "after a successful gather write and a power failure"); }
  } else if (!dead) {
    COUNT("probe.gather_failure");
    if (!f && !full) violation("false-failure", "the gather write reported failure although nothing failed");
  }
  NONTRIV = f > 0 || full || dead;
  SAMPLE = sfmt("%d ranks, segment %lu, %llu hard faults on %zu ranks%s: %s", n, j->segsize, (unsigned long long)f, ps.size(), dead ? ", a rank died" : "", ok ? "success" : "failure");
}

// ---------------------------------------------------------------- C18
// as if the writing of the set had failed: a file lacks an entry
// or, in a file that is otherwise well formed, what the readers need to know (*fatal: data cannot be found without it)
string drop_entry(const vector<string>& files, Rng& r, bool* fatal) {
  string f = files[pick(W, (u32)files.size())]; Dec d = dec_file(bytes_of(f)); auto& k = d.t["RANK"].kids; if (k.empty()) return "";
  if (fatal) *fatal = true;
  if (chance(W, 1, 5)) {     // a file of one level copied over that of another, or over another one of its level
    vector<string> o; for (auto& g : files) if (g != f && bytes_of(g) != bytes_of(f)) o.push_back(g);
    if (!o.empty()) { string g = o[pick(W, (u32)o.size())]; fs_put(f, bytes_of(g)); if (fatal) *fatal = false; string what = f + " holds what belongs into " + g; note(what); COUNT("probe.maps_mixed_up"); return what; }
  }
  if (d.t.kids.count("LEVEL") && d.t.kids["LEVEL"].kids.count("0") && chance(W, 1, 3)) {
    if (chance(W, 1, 2)) {   // a file copied over another one, as from a mixed up backup
      vector<string> o; for (auto& g : files) if (g != f) { Dec e = dec_file(bytes_of(g)); if (e.t.kids["LEVEL"].kids.count("0") && !e.t["RANK"].kids.empty()) o.push_back(g); }
      if (!o.empty()) { string g = o[pick(W, (u32)o.size())]; fs_put(f, bytes_of(g)); string what = f + " holds what belongs into " + g; note(what); COUNT("probe.parts_mixed_up"); return what; }
    } else {                 // a file of a set of another number of ranks
      long was = 0; string v; if (val1(d.t, "RANKS", v) && parse_int(v, was)) { Tree q; q[sfmt("%ld", was + 1 + (long)pick(W, 3))]; d.t["RANKS"] = q; string what = f + " is that of a larger set"; fs_put(f, enc_file(d.t, r, true, true)); note(what); COUNT("probe.parts_of_other_sets"); return what; }
    }
  }
  if (chance(W, 1, 4)) {
    u32 c = pick(W, 4); static const char* key[] = {"LEVEL", "RANKS", "FILE", "OFFSET"}; auto* from = &d.t.kids; string of;
    if (c >= 2) { auto it = k.begin(); std::advance(it, (long)pick(W, (u32)k.size())); from = &it->second.kids; of = " of " + it->first; if (!d.t.kids.count("LEVEL") || d.t.kids["LEVEL"].kids.count("0")) return ""; }
    if (!from->erase(key[c])) return "";
    if (fatal) *fatal = c == 2;
    string what = f + " lacks " + key[c] + of; fs_put(f, enc_file(d.t, r, true, true)); note(what); COUNT("probe.metadata_dropped"); return what;
  }
  auto it = k.begin(); std::advance(it, (long)pick(W, (u32)k.size())); string what = f + " lacks entry " + it->first; k.erase(it);
  fs_put(f, enc_file(d.t, r, true, true)); note(what); return what;
}
void run_c18() {
  base_setup(); HEAP_CAP = 24u << 20;
  int n = pick_ranks(129); string prefix = pick_prefix(); vector<Tree> v = rank_data(n);
  Rng r(pick(W, 1u << 16)); auto files = build_set(prefix, v, r, chance(W, 1, 2));
  u32 cond = pickw(W, {2, 5, 2, 4, 1}); int N = n; string what = "intact";
  bool mustfail = false, mustok = false;
  if (cond == 0) mustok = true;
  if (cond == 1) {
    string f = files[pick(W, (u32)files.size())]; string before = bytes_of(f); Damage d = damage_file(f, true, true); bool changed = !fs_exists(f) || bytes_of(f) != before;
    what = f + " " + d.what; if (d.must_fail && changed) mustfail = true; if (d.kind == 6 || !changed) mustok = true;
  }
  if (cond == 4) { bool fatal = false; string l = drop_entry(files, r, &fatal); if (!l.empty()) { what = l; mustfail = fatal; } else mustok = true; }
  if (cond == 2) { N = pick_ranks(40); if (N == n) N = n + 1; mustfail = true; what = sfmt("read by %d ranks", N); }
  Job* j = make_job(N, "rank"); vector<int> m = some_ranks(N, true); MPI_Comm c = mpi_make_comm(j, m);
  vector<FaultPlan*> ps;
  if (cond == 3) { ps = plans_for(j, chance(W, 1, 4) ? SOFT : (M(FK_EIO_RW) | M(FK_OPEN) | M(FK_LSEEK) | M(FK_CLOSE) | M(FK_ACCESS)), true); for (FaultPlan* p : ps) { if (chance(W, 1, 3)) p->rate = 500; if (chance(W, 1, 3)) p->budget = 1 + (int)pick(W, 2); } what = "faulty"; }
  else if (chance(W, 1, 3)) for (Proc* p : j->procs) p->plan = gen_plan(SOFT, false);
  Verdicts vd; vd.rc.assign((size_t)N, -100); vector<Tree> got((size_t)N), pre = pres_of(N);
  run_ranks(j, m, [&](int me) { scatter_body(prefix, pre[(size_t)me], me, c, vd, got); }, "scatter read");
  check_exits();
  u64 f = fired_of(j); bool ok = vd.rc[0] == KV_OK;
  if (cond == 3 && !f) mustok = true;
  if (!vd.unanimous()) violation("not-unanimous", sfmt("the scatter read did not return the same result on every rank (%s):", what.c_str()) + vd.show());
  if (ok) {
    if (mustfail) violation("false-success", sfmt("the scatter read of a set of %d ranks succeeds although it is: %s", n, what.c_str()));
    for (int i = 0; i < N; i++) same(tunion(pre[(size_t)i], v[(size_t)i]), got[(size_t)i], "wrong-data", sfmt("the scatter read succeeds (%s) but rank %d did not receive exactly its stored tree", what.c_str(), i));
    COUNT("probe.scatter_success");
  } else {
    if (mustok) violation("false-failure", sfmt("the scatter read of a set fails although nothing is wrong (%s)", what.c_str()));
    COUNT("probe.scatter_failure");
  }
  NONTRIV = cond != 0; SAMPLE = sfmt("set of %d ranks in %zu files, %s: %s", n, files.size(), what.c_str(), ok ? "success" : "failure");
}

// ---------------------------------------------------------------- C19
static void judge_set(const string& prefix, const vector<Tree>& v, const set<string>& before, const char* how) {
  SetWalk w = walk_set(prefix);
  if (!w.ok) violation("set", sfmt("the set written by %s is not consistent: %s", how, w.why.c_str()));
  if (w.nranks != (int)v.size()) violation("set", sfmt("the set written by %s for %zu ranks records %d ranks", how, v.size(), w.nranks));
  for (size_t r = 0; r < v.size(); r++) {
    if (!w.ranks.count((int)r)) violation("set", sfmt("rank %zu does not appear in the set written by %s", r, how));
    same(v[r], w.ranks[(int)r], "set", sfmt("rank %zu is not stored as given by %s", r, how));
  }
  for (auto& k : w.ranks) if (k.first < 0 || k.first >= (int)v.size()) violation("set", sfmt("the set written by %s has an entry for rank %d of %zu", how, k.first, v.size()));
  set<string> made; for (auto& kv : FS.names) if (!kv.second->dir && !before.count(kv.first)) made.insert(kv.first);
  if (made != w.files) { string d; for (auto& x : made) if (!w.files.count(x)) d += " " + x + " is not referred to;"; for (auto& x : w.files) if (!made.count(x)) d += " " + x + " was not created;"; violation("set", sfmt("the files created by %s are not those of the set:%s", how, d.c_str())); }
}
static set<string> present() { set<string> s; for (auto& k : FS.names) s.insert(k.first); return s; }
void run_c19() {
  base_setup();
  string prefix = pick_prefix(); if (chance(W, 1, 6)) fs_put(fs_norm(nullptr, prefix) + "x.0.0", "neighbour");
  set<string> before = present();
  if (chance(W, 1, 3)) {
    // rarely as many entries as one file takes at most when nothing is configured
    u32 many = pickw(W, {1600, 40, 1}); static const int about[] = {8191, 8192, 8193, 8197};
    int n = many == 2 ? about[pick(W, 4)] : many ? (int)range(W, 41, 300) : (int)skewed(W, 1, 40); vector<Tree> v;
    if (many == 2) { STEP_BUDGET = 4000000000ull; v.resize((size_t)n); for (int i = 0; i < n; i += 1 + (int)pick(W, 200)) v[(size_t)i][sfmt("of %d", i)]; v.back()["last"]; }
    else v = rank_data(n);
    static const char* e[] = {"1", "2", "3", "5", "7", "16", "8192", ""}; string epf = e[many == 2 ? 6 + pick(W, 2) : pick(W, 8)];
    int rc = -100; FaultPlan* pl = chance(W, 1, 3) ? gen_plan(SOFT, false) : nullptr;
    in_proc("writer", [&]() { rc = write_set(prefix, rank_tree(v), n, epf.empty() ? nullptr : epf.c_str()); }, pl);
    check_exits();
    if (rc != KV_OK) violation("set", "kvtree_write_to_gather failed without faults");
    judge_set(prefix, v, before, "kvtree_write_to_gather");
    SetWalk w = walk_set(prefix); long lim = epf.empty() ? 8192 : atol(epf.c_str());
    for (auto& l : w.leaves) if ((long)l.ranks.size() > lim) violation("set", sfmt("%s holds %zu entries, the limit is %ld", l.path.c_str(), l.ranks.size(), lim));
    if (w.top != 1) violation("set", sfmt("the root file has level %d", w.top));
    NONTRIV = w.files.size() > 2; SAMPLE = sfmt("single process, %d ranks, %s entries per file, %zu files", n, epf.empty() ? "default" : epf.c_str(), w.files.size());
    return;
  }
  u32 shape = pickw(W, {120, 2, 1}); bool big = shape == 1, deep = shape == 2;
  int n = big ? 3 + (int)pick(W, 4) : deep ? 60 + (int)pick(W, 80) : pick_ranks(260); Job* j = make_job(n, "rank"); vector<Tree> v;
  if (deep) for (int i = 0; i < n; i++) v.push_back(sized(110 + pick(W, 60))); else if (big) for (int i = 0; i < n; i++) v.push_back(sized(200000 + pick(W, 900000))); else v = rank_data(n);
  j->segsize = big ? 0 : deep ? 120 : pick_seg();
  if (!big && !deep && chance(W, 1, 4)) { // sizes that divide the segment
    u32 k = 1 + pick(W, 6); u64 s = 20 + pick(W, 100); while (s * k < 120) k++; j->segsize = s * k; for (Tree& t : v) t = sized(s); }
  unsigned long seg = j->segsize ? j->segsize : 1024 * 1024;
  vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m);
  if (chance(W, 1, 3)) for (Proc* p : j->procs) p->plan = gen_plan(SOFT, false);
  Verdicts vd; vd.rc.assign((size_t)n, -100);
  run_ranks(j, m, [&](int me) { gather_body(prefix, v, me, c, vd); }, "gather write");
  check_exits();
  if (!vd.all(KV_OK)) violation("set", "kvtree_write_gather failed without faults:" + vd.show());
  judge_set(prefix, v, before, "kvtree_write_gather");
  SetWalk w = walk_set(prefix);
  auto limit = [&](const SetFile& s) {
    u64 sum = 0, mx = 0; for (auto& e : s.ranks) { u64 b = tpacked(e.second); sum += b; mx = std::max(mx, b); }
    if (sum - mx > seg) violation("set-limit", sfmt("%s gathers %llu bytes of packed data besides its largest entry, the limit is %lu", s.path.c_str(), (unsigned long long)(sum - mx), seg));
  };
  for (auto& l : w.leaves) limit(l);
  for (auto& l : w.maps) limit(l);
  STATS.c["probe.set_levels_" + std::to_string(w.top)]++;
  NONTRIV = w.files.size() > 2; SAMPLE = sfmt("%d ranks, segment %lu, %zu files, top level %d", n, seg, w.files.size(), w.top);
}

// ---------------------------------------------------------------- C20
string odd_prefix() {
  static const char* n[] = {"/w/set", "/w/a+b", "/w/s.t", "/w/x[12]", "/w/c(d)", "/w/e*", "/w/f|g", "/w/h^$i", "/w/i{2}", "/w/j\\k", "/w/q?", "rel.set", "./dot", "/w/sub/deep.set", "sub/rel+", "/w/(", "/w/[", "/w/a b", "/w/p%d", "/w/%s%n", "/w/100%", "/w/-m", "/w/~", "/w/$HOME", "/w/\xc3\xa9\xff", "/w/n\nl", "/w/\"q'", "/w/.hid", "/w/sub//s", "/w/./sub/../up"};
  u32 k = pickw(W, {48, 1}); if (k) return long_prefix();
  return n[pick(W, sizeof n / sizeof *n)];
}
// files next to the set that are not part of it
vector<std::pair<string, string>> put_neighbours(const string& prefix, Rng& r, int n) {
  string p = fs_norm(nullptr, prefix); size_t sl = p.rfind('/'); string dir = p.substr(0, sl + 1), base = p.substr(sl + 1);
  vector<string> names = {p + ".0.0.bak", p + ".0.x", dir + "x" + base + ".0.0", p + ".0.", p + ".0.0~", p + "2.0.1", p + "x", p + ".0.1x", p + ".00.1", p + "_0_1", p + ".0", p + ".0.-1", p + ".0. 1", dir + ".0.0", dir + "other.0.0", p + "\n.0.5", p + ".0.1.0.2"};
  // names a pattern made from the prefix would match
  { string q = base; for (char& c : q) if (c == '.') c = 'X'; if (q != base) names.push_back(dir + q + ".0.90"); }
  for (size_t i = 0; i + 1 < base.size(); i++) if (base[i + 1] == '+' || base[i + 1] == '*') { names.push_back(dir + base.substr(0, i) + string(3, base[i]) + base.substr(i + 2) + ".0.91"); names.push_back(dir + base.substr(0, i) + base.substr(i + 2) + ".0.92"); }
  { size_t b = base.find('['); if (b != string::npos) { names.push_back(dir + base.substr(0, b) + "1.0.93"); names.push_back(dir + base.substr(0, b) + "2.0.94"); } }
  { size_t b = base.find('|'); if (b != string::npos) { names.push_back(dir + base.substr(0, b)); names.push_back(dir + base.substr(0, b) + "zz"); names.push_back(dir + base.substr(b + 1) + ".0.95"); } }
  { size_t b = base.find('('); if (b != string::npos) { string q = base; q.erase(b, 1); size_t e = q.find(')'); if (e != string::npos) q.erase(e, 1); names.push_back(dir + q + ".0.96"); } }
  { size_t b = base.find('?'); if (b != string::npos && b > 0) names.push_back(dir + base.substr(0, b - 1) + ".0.97"); }
  { size_t b = base.find('{'); if (b != string::npos && b > 0) names.push_back(dir + base.substr(0, b) + base[b - 1] + ".0.98"); }
  { size_t b = base.find('\\'); if (b != string::npos) { string q = base; q.erase(b, 1); names.push_back(dir + q + ".0.99"); } }
  vector<std::pair<string, string>> put;
  for (auto& x : names) {
    if (r.below(3) == 0 || fs_exists(x)) continue;
    string b;
    switch (r.below(3)) { case 0: b = "neighbour\n"; break; case 1: b = ""; break;
      default: { Tree t; t["LEVEL"]["0"]; t["RANKS"][rk(n)]; t["RANK"][rk((int)r.below(4) + n)]["stranger"]; Rng q(1); b = enc_file(t, q); } }
    fs_put(x, b); put.push_back({x, b});
  }
  return put;
}
// written for more ranks than there are trees
static void c20_sparse() {
  string prefix = odd_prefix(); int n = (int)skewed(W, 2, 40); vector<Tree> v = rank_data(n); Tree full = rank_tree(v), t;
  set<int> gone; u32 how = pick(W, 3); int lo = (int)pick(W, (u32)n);
  if (how == 0) for (int i = std::max(1, lo); i < n; i++) gone.insert(i); else if (how == 1) gone.insert(lo); else { u32 k = 1 + pick(W, (u32)n); for (u32 i = 0; i < k; i++) gone.insert((int)pick(W, (u32)n)); }
  for (int i = 0; i < n; i++) if (!gone.count(i)) t[rk(i)] = v[(size_t)i];
  static const char* e[] = {"1", "2", "3", "5", "", "8192"}; string epf = e[pick(W, 6)]; int rc = -100;
  in_proc("writer", [&]() { rc = write_set(prefix, t, n, epf.empty() ? nullptr : epf.c_str()); }, chance(W, 1, 4) ? gen_plan(SOFT, false) : nullptr); check_exits();
  int last = -1; for (int i = 0; i < n; i++) if (!gone.count(i)) last = i;
  bool single = chance(W, 1, 2); int N = chance(W, 1, 2) ? n : std::max(1, last + 1); string why = sfmt("a set written for %d ranks with trees for %d of them", n, n - (int)gone.size());
  if (rc == KV_OK) {
    if (single) { Rd g; in_proc("reader", [&]() { g = read_set(prefix); }, nullptr); check_exits(); if (g.rc == KV_OK) violation("interop", "kvtree_read_scatter_single succeeds on " + why); }
    else {
      Job* j = make_job(N, "reader"); vector<int> m = some_ranks(N, true); MPI_Comm c = mpi_make_comm(j, m); Verdicts vd; vd.rc.assign((size_t)N, -100); vector<Tree> got((size_t)N), pre = pres_of(N);
      run_ranks(j, m, [&](int me) { scatter_body(prefix, pre[(size_t)me], me, c, vd, got); }, "scatter read"); check_exits();
      for (int i = 0; i < N; i++) if (vd.rc[(size_t)i] == KV_OK) violation("interop", sfmt("kvtree_read_scatter by %d ranks succeeds on ", N) + why);
    }
    COUNT("probe.sets_lacking_ranks");
  }
  NONTRIV = true; SAMPLE = sfmt("prefix %s, %s, read by %d", prefix.c_str(), why.c_str(), single ? 1 : N);
}
void run_c20() {
  base_setup();
  if (chance(W, 1, 16)) { HEAP_CAP = 24u << 20; fs_mkdir("/w/sub"); c20_sparse(); return; } HEAP_CAP = 24u << 20;
  fs_mkdir("/w/sub");
  string prefix = odd_prefix(); u32 size = pickw(W, {60, 60, 1}); int n = size == 0 ? (int)range(W, 1, 8) : size == 1 ? (int)skewed(W, 1, 30) : (int)range(W, 31, 130); vector<Tree> v = rank_data(n);
  Rng r(pick(W, 1u << 16)); bool nb = chance(W, 1, 2); vector<std::pair<string, string>> put; if (nb) put = put_neighbours(prefix, r, n);
  u32 writer = pickw(W, {3, 3, 1}); string how, epf; int rc = -100;
  u32 rounds = chance(W, 1, 4) ? 2 : 1;       // an older set of the same name: the same parts are overwritten, or parts of it are left over
  static const char* e[] = {"1", "2", "3", "5", "", "8192", "0", "-1", "abc", "1x", "99999999"};
  FaultPlan* soft = chance(W, 1, 4) ? gen_plan(SOFT, false) : nullptr;
  for (u32 k = 0; k < rounds; k++) {
    bool older = k + 1 < rounds; vector<Tree> cur = v; int cn = n; u32 cw = writer;
    if (older) { if (chance(W, 2, 3)) cn = (int)range(W, 1, 16); cur = rank_data(cn); if (chance(W, 1, 2)) cw = pick(W, 2); if (cw == 2) cw = 0; COUNT("probe.older_sets"); }
    epf = e[pickw(W, {4, 4, 3, 2, 3, 1, 1, 1, 1, 1, 1})]; rc = -100;
    if (cw == 0) {
      how = "kvtree_write_to_gather";
      in_proc("writer", [&]() { rc = write_set(prefix, rank_tree(cur), cn, epf.empty() ? nullptr : epf.c_str()); }, soft);
    } else if (cw == 1) {
      how = "kvtree_write_gather"; cn = std::min(cn, 16); cur.resize((size_t)cn);
      Job* j = make_job(cn, "rank"); j->segsize = pick_seg(); vector<int> m = some_ranks(cn, true); MPI_Comm c = mpi_make_comm(j, m); Verdicts vd; vd.rc.assign((size_t)cn, -100);
      run_ranks(j, m, [&](int me) { gather_body(prefix, cur, me, c, vd); }, older ? "gather write of an older set" : "gather write"); rc = vd.all(KV_OK) ? KV_OK : 1;
    } else { how = "another implementation"; build_set(prefix, cur, r, chance(W, 1, 2)); rc = KV_OK; }
    if (!older) { v = cur; n = cn; }
    check_exits(); if (rc != KV_OK) violation("interop", how + " failed without faults");
  }
  // break it sometimes
  SetWalk w = walk_set(prefix); if (!w.ok) violation("interop", "the set written by " + how + " is not consistent: " + w.why);
  bool broken = chance(W, 1, 3), mustfail = false; string what = "intact";
  if (broken) {
    u32 k = pick(W, (u32)w.leaves.size() + 1); string f = k == 0 ? fs_norm(nullptr, prefix) : w.leaves[k - 1].path; string before = bytes_of(f);
    Damage d = damage_file(f, true, true); bool changed = !fs_exists(f) || bytes_of(f) != before; what = f + " " + d.what;
    if (d.must_fail && changed) mustfail = true;
    if (d.kind == 6 || !changed) broken = false;
  }
  FaultPlan* rf = nullptr; bool faulty = false;
  if (!broken && chance(W, 1, 4)) { rf = gen_plan(M(FK_EIO_RW) | M(FK_OPEN) | M(FK_OPENDIR) | M(FK_ACCESS) | M(FK_CLOSE), true); faulty = true; what = "faulty"; }
  else if (chance(W, 1, 4)) rf = gen_plan(SOFT, false);
  u32 reader = pickw(W, {3, 2}); bool ok = false;
  if (reader == 0 || faulty) {
    Rd g; in_proc("reader", [&]() { g = read_set(prefix); }, rf); check_exits(); ok = g.rc == KV_OK;
    if (ok && mustfail) violation("interop", sfmt("kvtree_read_scatter_single succeeds although %s", what.c_str()));
    if (ok) same(rank_tree(v), g.t, "interop", sfmt("kvtree_read_scatter_single of a set written by %s (%s) delivers other data", how.c_str(), what.c_str()));
    if (!ok && !broken && !(faulty && rf->fired)) violation("interop", sfmt("kvtree_read_scatter_single of prefix '%s' fails on an intact set written by %s", prefix.c_str(), how.c_str()));
  } else {
    Job* j = make_job(n, "reader"); vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m); Verdicts vd; vd.rc.assign((size_t)n, -100); vector<Tree> got((size_t)n), pre = pres_of(n);
    for (Proc* p : j->procs) p->plan = rf;
    run_ranks(j, m, [&](int me) { scatter_body(prefix, pre[(size_t)me], me, c, vd, got); }, "scatter read"); check_exits(); ok = vd.all(KV_OK);
    if (ok && mustfail) violation("interop", sfmt("kvtree_read_scatter succeeds although %s", what.c_str()));
    if (ok) for (int i = 0; i < n; i++) same(tunion(pre[(size_t)i], v[(size_t)i]), got[(size_t)i], "interop", sfmt("rank %d does not get its tree of a set written by %s", i, how.c_str()));
    if (!ok && !broken) violation("interop", sfmt("kvtree_read_scatter fails on an intact set written by %s", how.c_str()));
  }
  for (auto& x : put) { string b; if (!fs_get(x.first, b) || b != x.second) violation("interop", "the neighbouring file " + x.first + " changed"); }
  NONTRIV = true; SAMPLE = sfmt("prefix %s, %d ranks written by %s, %s, read by %s: %s", prefix.c_str(), n, how.c_str(), what.c_str(), reader == 0 ? "one process" : "a job", ok ? "success" : "failure");
}

// ---------------------------------------------------------------- collective parts of C05 and C11
void run_c05_mpi() {
  base_setup();
  int n = pick_ranks(9); Job* j = make_job(n, "rank"); j->segsize = pick_seg(); vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m);
  string prefix = pick_prefix(); vector<Tree> v = rank_data(n), pre = pres_of(n), got((size_t)n);
  for (Proc* p : j->procs) if (!chance(W, 1, 3)) p->plan = transient_plan();
  Verdicts a, b; a.rc.assign((size_t)n, -100); b = a;
  run_ranks(j, m, [&](int me) { gather_body(prefix, v, me, c, a); if (a.rc[(size_t)me] == KV_OK) scatter_body(prefix, pre[(size_t)me], me, c, b, got); }, "gather and scatter");
  check_exits();
  // the limits of what counts as transient are per call; a gather or scatter opens one or a few files per call
  if (!a.all(KV_OK)) violation("not-absorbed", "the gather write failed although only transient trouble happened:" + a.show());
  set_must_hold(prefix, v, false, "not-absorbed", "the gather write succeeded");
  if (!b.all(KV_OK)) violation("not-absorbed", "the scatter read failed although only transient trouble happened:" + b.show());
  for (int i = 0; i < n; i++) same(tunion(pre[(size_t)i], v[(size_t)i]), got[(size_t)i], "not-absorbed", sfmt("the scatter read delivered other data to rank %d because of transient trouble", i));
  u64 soft = 0; for (Proc* p : j->procs) if (p->plan) soft += p->plan->fired + p->plan->fired_soft;
  NONTRIV = soft > 0; SAMPLE = sfmt("collective gather and scatter of %d ranks under %llu transient faults", n, (unsigned long long)soft);
}
void run_c11_mpi() {
  base_setup(); HEAP_CAP = 24u << 20;
  int n = pick_ranks(9); string prefix = pick_prefix(); vector<Tree> v = rank_data(n);
  Rng r(pick(W, 1u << 16)); auto files = build_set(prefix, v, r, chance(W, 1, 2)); u32 cond = pickw(W, {1, 4, 2, 3, 2}); int N = n;
  if (cond == 4) drop_entry(files, r, nullptr);
  if (cond == 1) damage_file(files[pick(W, (u32)files.size())], true, true);
  if (cond == 2) { N = pick_ranks(9); if (N == n) N++; }
  Job* j = make_job(N, "rank"); vector<int> m = some_ranks(N, true); MPI_Comm c = mpi_make_comm(j, m);
  if (cond == 3) plans_for(j, M(FK_EIO_RW) | M(FK_OPEN) | M(FK_LSEEK) | M(FK_CLOSE), true);
  Verdicts vd; vd.rc.assign((size_t)N, -100); vector<Tree> got((size_t)N), pre;
  for (int i = 0; i < N; i++) { Tree p = chance(W, 1, 2) ? gen_small() : Tree(); if (i < n && chance(W, 1, 2)) for (auto& k : v[(size_t)i].kids) { p[k.first]["mine"]; break; } pre.push_back(p); }
  run_ranks(j, m, [&](int me) { scatter_body(prefix, pre[(size_t)me], me, c, vd, got); }, "scatter read");
  check_exits();
  for (int i = 0; i < N; i++) {
    if (vd.rc[(size_t)i] != KV_OK) same(pre[(size_t)i], got[(size_t)i], "dest-changed", sfmt("the scatter read failed on rank %d but its destination changed", i));
    else if (i < n) same(tunion(pre[(size_t)i], v[(size_t)i]), got[(size_t)i], "wrong-merge", sfmt("the scatter read succeeded on rank %d but the destination is not its old contents merged with its stored tree", i));
    if (vd.rc[(size_t)i] == KV_OK) COUNT("probe.successful_reads"); else COUNT("probe.failed_reads");
  }
  NONTRIV = true; SAMPLE = sfmt("scatter read of a set of %d ranks by %d ranks:%s", n, N, vd.show().c_str());
}

// every file of a set written over older files is one record
void run_c12_set() {
  base_setup();
  string prefix = pick_prefix(), p = fs_norm(nullptr, prefix); bool coll = chance(W, 1, 2);
  int n = coll ? pick_ranks(40) : (int)skewed(W, 1, 24); vector<Tree> v = rank_data(n);
  Job* j = coll ? make_job(n, "rank") : nullptr; if (coll) j->segsize = pick_seg();
  u32 old = pickw(W, {3, 3, 1});     // an older set, other contents under the same names, nothing
  if (old == 0) { vector<Tree> o = rank_data(n + (int)pick(W, 6)); for (Tree& t : o) if (chance(W, 1, 2)) t["older"][string(pick(W, 400), 'o')]; Rng r(pick(W, 1u << 16)); build_set(prefix, o, r, chance(W, 1, 3)); }
  auto fill = [&](const string& f) { if (chance(W, 1, 2)) { string g(pick(W, 30000), 0); Rng r(pick(W, 1u << 16)); for (char& c : g) c = (char)r.below(256); fs_put(f, g); } };
  if (old == 1) { fill(p); for (int i = 0; i <= n; i++) { fill(sfmt("%s.0.%d", p.c_str(), i)); if (i < 6) fill(sfmt("%s.1.%d", p.c_str(), i)); } }
  int rc = KV_OK; string how;
  if (coll) {
    how = "kvtree_write_gather"; vector<int> m = some_ranks(n, true); MPI_Comm c = mpi_make_comm(j, m);
    if (chance(W, 1, 3)) for (Proc* q : j->procs) q->plan = gen_plan(SOFT, false);
    Verdicts vd; vd.rc.assign((size_t)n, -100);
    run_ranks(j, m, [&](int me) { gather_body(prefix, v, me, c, vd); }, "gather write"); rc = vd.all(KV_OK) ? KV_OK : 1;
  } else {
    how = "kvtree_write_to_gather"; static const char* e[] = {"1", "2", "3", "5", "7", ""}; string epf = e[pick(W, 6)]; FaultPlan* pl = chance(W, 1, 3) ? gen_plan(SOFT, false) : nullptr;
    in_proc("writer", [&]() { rc = write_set(prefix, rank_tree(v), n, epf.empty() ? nullptr : epf.c_str()); }, pl);
  }
  check_exits();
  if (rc != KV_OK) violation("format", how + " failed without faults");
  SetWalk w = walk_set(prefix);
  for (auto& f : w.files) { string b; if (!fs_get(f, b)) continue; Dec d = dec_file(b); if (!d.ok) violation("format", sfmt("%s, written by %s, is not one record of the documented format: %s", f.c_str(), how.c_str(), d.why.c_str())); if (!d.crc) violation("format", sfmt("%s, written by %s, has no checksum", f.c_str(), how.c_str())); }
  if (!w.ok) violation("format", sfmt("the files written by %s do not encode the set: %s", how.c_str(), w.why.c_str()));
  COUNT("probe.sets_decoded");
  NONTRIV = true; SAMPLE = sfmt("set of %d ranks by %s over %s, %zu files decoded independently", n, how.c_str(), old == 0 ? "an older set" : old == 1 ? "other contents" : "nothing", w.files.size());
}

void run_c11_single() {
  base_setup(); HEAP_CAP = 24u << 20;
  int n = (int)skewed(W, 1, 12); string prefix = odd_prefix(); fs_mkdir("/w/sub"); vector<Tree> v = rank_data(n);
  Rng r(pick(W, 1u << 16)); auto files = build_set(prefix, v, r, chance(W, 1, 2)); u32 cond = pickw(W, {2, 4, 4, 2, 2}); bool lacks = cond == 4 && !drop_entry(files, r, nullptr).empty();
  if (chance(W, 1, 3)) put_neighbours(prefix, r, n);
  if (cond == 1) damage_file(files[pick(W, (u32)files.size())], true, true);
  FaultPlan* pl = nullptr;
  if (cond == 2) { pl = gen_plan(M(FK_EIO_RW) | M(FK_OPEN) | M(FK_CLOSE) | M(FK_ACCESS) | DIRF, true); if (pl->rate < 100) pl->rate = 200; if (chance(W, 1, 2)) pl->budget = 1 + (int)pick(W, 2); }
  if (cond == 3) { Rng q(pick(W, 1u << 16)); string other = "/w/othr"; auto f2 = build_set(other, rank_data(n + 1 + (int)pick(W, 3)), q, false); string b; fs_get(f2.back(), b); fs_put(fs_norm(nullptr, prefix), b); for (auto& f : f2) fs_rm(f); note("the root file is that of a larger set"); }
  Tree pre = chance(W, 1, 4) ? Tree() : gen_small(); for (int i = 0; i < n + 2; i++) if (r.below(2)) { Tree& q = pre[sfmt("%d", i)]; if (i < n && !v[(size_t)i].empty() && r.below(2)) q[v[(size_t)i].kids.begin()->first]["mine"]; }
  int rc = -100; Tree got;
  in_proc("user", [&]() { kvtree* h = to_lib(pre); op_begin(); rc = CALL(kvtree_read_scatter_single, prefix.c_str(), h); got = from_lib(h); del_lib(h); }, pl);
  check_exits();
  if (rc != KV_OK) { same(pre, got, "dest-changed", sfmt("kvtree_read_scatter_single(%s) failed but the destination changed", prefix.c_str())); COUNT("probe.failed_reads"); }
  else { same(tunion(pre, rank_tree(v)), got, "wrong-merge", sfmt("kvtree_read_scatter_single(%s) succeeded%s but the destination is not its old contents merged with the stored trees", prefix.c_str(), lacks ? " on an incomplete set" : "")); COUNT("probe.successful_reads"); }
  NONTRIV = true; SAMPLE = sfmt("read of the set %s of %d ranks in one process: ", prefix.c_str(), n) + res(rc);
}
