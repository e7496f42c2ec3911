#include "mpisim.h"
#include "fs.h"
#include <cstdio>
#include <cstdlib>
#include <list>

u64 MPI_MSGS = 0;
struct Req;
struct Msg {
  int src, dst, tag, type; int comm;       // ranks in the communicator
  vector<uint8_t> snap;                    // contents at the time of the send
  const uint8_t* buf = nullptr;            // sender's buffer while in flight
  u64 arrive = 0; u64 seq = 0;
  Req* sreq = nullptr;                     // sender's request, completed on match unless eager
  bool matched = false; bool app = false;
};
struct Req {
  int id; Proc* owner; bool send; bool done = false; bool active = true; bool freed = false;
  // recv
  uint8_t* buf = nullptr; size_t cap = 0; int src = 0, tag = 0, type = 0; int comm = 0;
  u64 order = 0; bool late = false; vector<uint8_t> data; bool delivered = false;
  MPI_Status st;
  // send
  vector<uint8_t> snap; const uint8_t* sbuf = nullptr; size_t slen = 0;
  string op; bool app = false;
  std::function<bool()> ready; std::function<void()> fin;     // a collective in progress
};
struct Coll {
  string type; int root = 0; int op = 0; int dt = 0; u64 count = 0; int n = 0;
  int arrived = 0; vector<bool> here; vector<vector<uint8_t>> in; vector<u64> at;
  string first;
};
struct Comm { int id; Job* job; vector<Proc*> members; vector<u64> collseq; map<u64, std::shared_ptr<Coll>> colls;
  std::list<Msg*> msgs; std::list<Req*> recvs; map<std::pair<int,int>, u64> lastarr; map<int, u64> appseen; bool freed = false; bool dirty = true; u64 next = 0; };
static vector<Comm*> comms;
static vector<Job*> jobs;
static vector<Req*> reqs;
static vector<Msg*> allmsgs;
static u64 seqno = 0;

static vector<Msg*> probed;                // taken out of the queue by a matched probe
static vector<size_t> dtypes;              // made by the program
void mpi_reset() {
  for (auto c : comms) delete c; comms.clear();
  for (auto j : jobs) delete j; jobs.clear();
  for (auto r : reqs) delete r; reqs.clear();
  for (auto m : allmsgs) delete m; allmsgs.clear();
  dtypes.clear(); probed.clear(); seqno = 0; MPI_MSGS = 0;
}
Job* mpi_new_job(int n, const string& name) {
  Job* j = new Job; j->id = (int)jobs.size(); jobs.push_back(j);
  for (int i = 0; i < n; i++) { Proc* p = new_proc(sfmt("%s%d", name.c_str(), i)); p->job = j; p->rank = i; j->procs.push_back(p); }
  return j;
}
MPI_Comm mpi_make_comm(Job* j, const vector<int>& ranks) {
  Comm* c = new Comm; c->id = 100 + (int)comms.size(); c->job = j;
  for (int r : ranks) c->members.push_back(j->procs[r]);
  c->collseq.assign(ranks.size(), 0);
  comms.push_back(c);
  return c->id;
}
void mpi_proc_gone(Proc* p) {
  if (!p->job || p->job->dead) return;
  // normal return of a rank is fine; a killed or exiting rank ends the job
  bool bad = p->killed || (p->exited && p->status != 0);
  for (Fiber* f : p->fibers) if (f->st == DEAD) bad = true;
  if (!bad) return;
  p->job->dead = true;
  COUNT("probe.job_ended_early");
  for (Proc* q : p->job->procs) if (q->alive) kill_proc(q, "job-kill");
}
static Comm* getcomm(MPI_Comm h, const char* fn) {
  // the library may ask about these as well, though what it communicates belongs to the caller's communicator
  if ((h == MPI_COMM_WORLD || h == MPI_COMM_SELF) && CUR && CUR->proc && CUR->proc->job) {
    Job* j = CUR->proc->job;
    if (h == MPI_COMM_SELF) { for (size_t k = 0; k < j->procs.size(); k++) if (j->procs[k] == CUR->proc) { Comm*& c = j->self[CUR->proc]; if (!c) c = comms[(size_t)(mpi_make_comm(j, {(int)k}) - 100)]; return c; } }
    if (!j->world) { vector<int> all; for (size_t k = 0; k < j->procs.size(); k++) all.push_back((int)k); j->world = comms[(size_t)(mpi_make_comm(j, all) - 100)]; }
    return j->world;
  }
  int i = h - 100;
  if (i < 0 || i >= (int)comms.size()) violation("mpi-usage", sfmt("%s on a communicator the caller did not pass", fn));
  return comms[i];
}
static int myrank(Comm* c, const char* fn) {
  for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == CUR->proc) return (int)i;
  violation("mpi-usage", sfmt("%s on a communicator this process does not belong to", fn));
}
static size_t tsize(MPI_Datatype t) { return t >= 0x100000 && (size_t)(t - 0x100000) < dtypes.size() ? dtypes[(size_t)(t - 0x100000)] : t & 0xff; }

struct Out { Fiber* f; int il; Out() : f(CUR), il(CUR->in_lib) { f->in_lib = 0; if (il) f->sys++; } ~Out() { f->in_lib = il; if (il) f->sys--; } };
static void poll_wait() { u32 k = std::min(CUR->polls++ / 4, 10u); sleep_us(5u << k); }   // a program that polls; the longer in vain, the fewer polls are simulated
static void mseam(const char* why) {
  yield_point(why);
  if (Proc* p = CUR->proc; p->nap_us && p->mpi_calls++ == p->nap_at) { STATS.c["fault.long_stall"]++; sleep_us(p->nap_us); }
  FaultPlan* pl = CUR->proc->plan;
  if (pl) {
    if (pl->has(FK_KILL) && pl->killrate && chance(F, pl->killrate, 10000)) { STATS.c["fault.kill"]++; pl->fired++; kill_proc(CUR->proc, "kill"); maybe_die(why); }
    if (pl->has(FK_STALL) && chance(F, pl->rate, 4000)) { STATS.c["fault.stall"]++; pl->fired_soft++; sleep_us(1000 + pick(D, 100000)); }
  }
}

// ---------------------------------------------------------------- matching
static bool fits(Req* r, Msg* m) { return (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void deliver(Req* r, Msg* m) {
  // current contents of the sender's buffer if it is still in flight
  const uint8_t* src = m->snap.data(); size_t n = m->snap.size();
  if (m->buf && m->sreq && m->sreq->active && !m->sreq->done) src = m->buf;
  if (n > r->cap) {
    r->st.MPI_ERROR = MPI_ERR_TRUNCATE;
    Proc* p = r->owner; (void)p;
    if (!VIO.hit) { VIO.hit = true; VIO.sig = "mpi-usage"; VIO.msg = sfmt("a %zu-byte message arrived in a %zu-byte receive buffer (MPI_ERR_TRUNCATE) [in %s by %s]", n, r->cap, r->op.c_str(), r->owner->name.c_str()); }
    n = r->cap;
  }
  r->data.assign(src, src + n);
  r->st.MPI_SOURCE = m->src; r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = 0; r->st.sim_count = (int)n; r->st.sim_type = m->type;
  if (!r->late) { if (n) memcpy(r->buf, r->data.data(), n); r->delivered = true; }
  r->done = true;
  m->matched = true;
  if (m->sreq) { m->sreq->done = true; m->sreq = nullptr; }
}
// matches arrived messages with posted receives, in order; dst < 0: for every rank
static void progress(Comm* c, int dst) {
  if (c->recvs.empty() || c->msgs.empty()) return;
  for (auto im = c->msgs.begin(); im != c->msgs.end();) {
    Msg* m = *im;
    if ((dst >= 0 && m->dst != dst) || m->arrive > NOW) { ++im; continue; }
    Req* hit = nullptr; std::list<Req*>::iterator hi;
    for (auto ir = c->recvs.begin(); ir != c->recvs.end(); ++ir)
      if ((*ir)->owner == c->members[m->dst] && fits(*ir, m)) { hit = *ir; hi = ir; break; }
    if (hit) { deliver(hit, m); c->recvs.erase(hi); im = c->msgs.erase(im); }
    else ++im;
  }
}
static void progress_all(Comm* c) {
  if (!c->dirty && NOW < c->next) return;      // nothing new since the last pass
  progress(c, -1);
  c->dirty = false; c->next = ~0ull;
  for (Msg* m : c->msgs) if (m->arrive > NOW) c->next = std::min(c->next, m->arrive);
}

static Req* newreq(bool send) { Req* r = new Req; r->id = (int)reqs.size() + 1; r->owner = CUR->proc; r->send = send; r->op = CUR->op; memset(&r->st, 0, sizeof r->st); r->st.MPI_SOURCE = MPI_ANY_SOURCE; r->st.MPI_TAG = MPI_ANY_TAG; reqs.push_back(r); return r; }

static Req* start_send(const void* buf, int count, MPI_Datatype t, int dst, int tag, Comm* c, bool sync, bool immediate, const char* fn) {
  int me = myrank(c, fn);
  if (count < 0) violation("mpi-usage", sfmt("%s with negative count %d", fn, count));
  if (dst == MPI_PROC_NULL) { Req* r = newreq(true); r->done = true; r->st.MPI_SOURCE = MPI_PROC_NULL; return r; }
  if (dst < 0 || dst >= (int)c->members.size()) violation("mpi-usage", sfmt("%s to invalid rank %d of %zu", fn, dst, c->members.size()));
  if (tag < 0) violation("mpi-usage", sfmt("%s with invalid tag %d", fn, tag));
  size_t n = (size_t)count * tsize(t);
  Req* r = newreq(true); r->comm = c->id; r->app = CUR->op.compare(0, 4, "app:") == 0;
  Msg* m = new Msg; allmsgs.push_back(m);
  m->src = me; m->dst = dst; m->tag = tag; m->type = t; m->comm = c->id; m->app = r->app;
  if (n) heap_range(buf, n, "MPI send from");
  m->snap.assign((const uint8_t*)buf, (const uint8_t*)buf + n);
  m->seq = seqno++;
  Job* j = c->job;
  u64 d = j->maxdelay ? pick(D, j->maxdelay + 1) : 0;
  u64 at = NOW + d;
  u64& la = c->lastarr[{me, dst}];
  if (at < la) at = la; la = at;             // non-overtaking
  m->arrive = at; future_event(at);
  bool eager = sync ? false : j->eager_num >= 4 ? true : j->eager_num == 0 ? false : !chance(D, 4 - j->eager_num, 4);
  if (eager) COUNT("probe.mpi_eager"); else COUNT("probe.mpi_rendezvous");
  r->snap = m->snap; r->sbuf = (const uint8_t*)buf; r->slen = n;
  if (eager) { r->done = true; }
  else { m->sreq = r; }
  if (immediate && j->late_copy && chance(D, j->late_copy, 4)) { m->buf = (const uint8_t*)buf; if (eager) { r->done = false; m->sreq = r; } }
  c->msgs.push_back(m); c->dirty = true;
  MPI_MSGS++;
  ev("send", (u64)dst, n, hashstr(string((const char*)buf, n)));
  progress(c, dst);
  return r;
}
static Req* start_recv(void* buf, int count, MPI_Datatype t, int src, int tag, Comm* c, const char* fn) {
  int me = myrank(c, fn);
  if (count < 0) violation("mpi-usage", sfmt("%s with negative count %d", fn, count));
  Req* r = newreq(false); r->comm = c->id; r->type = t; r->app = CUR->op.compare(0, 4, "app:") == 0;
  if (src == MPI_PROC_NULL) { r->done = true; r->delivered = true; r->st.MPI_SOURCE = MPI_PROC_NULL; return r; }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) violation("mpi-usage", sfmt("%s from invalid rank %d of %zu", fn, src, c->members.size()));
  r->buf = (uint8_t*)buf; r->cap = (size_t)count * tsize(t); r->src = src; r->tag = tag;
  r->order = seqno++;
  r->late = c->job->late_copy && chance(D, c->job->late_copy, 4);
  if (r->cap) { heap_range(buf, r->cap, "MPI receive into"); memset(buf, 0xEE, r->cap); }     // contents are undefined until completion
  c->recvs.push_back(r); c->dirty = true;
  ev("recv", (u64)(long)src, r->cap, (u64)(long)tag);
  progress(c, me);
  return r;
}
static void complete(Req* r, MPI_Status* st) {
  CUR->polls = 0;
  if (r->fin) { r->fin(); r->fin = nullptr; }
  if (r->send) {
    if (r->sbuf && r->slen && memcmp(r->sbuf, r->snap.data(), r->slen))
      violation("mpi-buffer", sfmt("a send buffer of %zu bytes was changed or freed before the send completed", r->slen));
  } else if (!r->delivered && r->buf) {
    for (size_t i = 0; i < r->cap; i++) if (r->buf[i] != 0xEE)
      violation("mpi-buffer", "a receive buffer was written by the caller before the receive completed");
    if (!r->data.empty()) memcpy(r->buf, r->data.data(), r->data.size());
    r->delivered = true;
  }
  r->active = false;
  if (st) *st = r->st;
  ev("complete", r->send, r->st.sim_count, (u64)(long)r->st.MPI_SOURCE);
}
static Req* getreq(MPI_Request h) {
  if (h < 1 || h > (int)reqs.size()) violation("mpi-usage", "wait on an invalid request handle");
  Req* r = reqs[h - 1];
  if (!r->active) violation("mpi-usage", "wait on a request that already completed");
  if (r->owner != CUR->proc) violation("mpi-usage", "wait on a request of another process");
  return r;
}
static bool is_done(Req* r) {
  if (!r->done && r->ready) r->done = r->ready();
  if (!r->done && r->comm) progress_all(comms[r->comm - 100]);
  return r->done;
}
static void wait_req(Req* r, const char* fn) {
  auto ok = [r]() { return is_done(r); };
  if (!ok()) block_until(fn, ok);
}

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int code) { CUR->in_lib = 0; ev("MPI_Abort", (u64)code, 0, 0); proc_exit(code ? code : 1); }
int MPI_Comm_rank(MPI_Comm h, int* r) { Comm* c = getcomm(h, "MPI_Comm_rank"); *r = myrank(c, "MPI_Comm_rank"); return 0; }
int MPI_Comm_size(MPI_Comm h, int* n) { Comm* c = getcomm(h, "MPI_Comm_size"); *n = (int)c->members.size(); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char* b, int* n) { *n = snprintf(b, 100, "node%d", CUR->proc->rank % 4); return 0; }
int MPI_Error_string(int, char* b, int* n) { *n = snprintf(b, 100, "error"); return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)tsize(t); return 0; }
double MPI_Wtime(void) { return NOW * 1e-6; }

static int do_send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, bool sync, const char* fn) {
  Out o; mseam(fn); Comm* c = getcomm(h, fn);
  Req* r = start_send(b, n, t, d, tag, c, sync, false, fn);
  wait_req(r, fn); complete(r, nullptr); return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) { return do_send(b, n, t, d, tag, h, false, "MPI_Send"); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) { return do_send(b, n, t, d, tag, h, true, "MPI_Ssend"); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) { return do_send(b, n, t, d, tag, h, false, "MPI_Rsend"); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Status* st) {
  Out o; mseam("MPI_Recv"); Comm* c = getcomm(h, "MPI_Recv");
  Req* r = start_recv(b, n, t, s, tag, c, "MPI_Recv");
  wait_req(r, "MPI_Recv"); complete(r, st); return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request* rq) {
  Out o; mseam("MPI_Isend"); *rq = start_send(b, n, t, d, tag, getcomm(h, "MPI_Isend"), false, true, "MPI_Isend")->id; return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request* rq) {
  Out o; mseam("MPI_Issend"); *rq = start_send(b, n, t, d, tag, getcomm(h, "MPI_Issend"), true, true, "MPI_Issend")->id; return 0;
}
int MPI_Irsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request* rq) { return MPI_Isend(b, n, t, d, tag, h, rq); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Request* rq) {
  Out o; mseam("MPI_Irecv"); *rq = start_recv(b, n, t, s, tag, getcomm(h, "MPI_Irecv"), "MPI_Irecv")->id; return 0;
}
int MPI_Wait(MPI_Request* rq, MPI_Status* st) {
  Out o; mseam("MPI_Wait");
  if (*rq == MPI_REQUEST_NULL) { if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; } return 0; }
  Req* r = getreq(*rq); wait_req(r, "MPI_Wait"); complete(r, st); *rq = MPI_REQUEST_NULL; return 0;
}
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) {
  Out o; mseam("MPI_Waitall");
  for (int i = 0; i < n; i++) {
    if (rq[i] == MPI_REQUEST_NULL) continue;
    Req* r = getreq(rq[i]); wait_req(r, "MPI_Waitall"); 
  }
  for (int i = 0; i < n; i++) {
    if (rq[i] == MPI_REQUEST_NULL) { if (st) { memset(&st[i], 0, sizeof *st); st[i].MPI_SOURCE = MPI_ANY_SOURCE; } continue; }
    complete(getreq(rq[i]), st ? &st[i] : nullptr); rq[i] = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Waitany(int n, MPI_Request* rq, int* idx, MPI_Status* st) {
  Out o; mseam("MPI_Waitany");
  vector<int> act; for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) { getreq(rq[i]); act.push_back(i); }
  if (act.empty()) { *idx = MPI_UNDEFINED; return 0; }
  auto donei = [&]() { vector<int> d; for (int i : act) { Req* r = reqs[rq[i] - 1]; if (is_done(r)) d.push_back(i); } return d; };
  if (donei().empty()) block_until("MPI_Waitany", [&]() { return !donei().empty(); });
  auto d = donei(); int i = d[pick(S, (u32)d.size())];
  complete(getreq(rq[i]), st); rq[i] = MPI_REQUEST_NULL; *idx = i; return 0;
}
int MPI_Waitsome(int n, MPI_Request* rq, int* out, int* idx, MPI_Status* st) {
  int i; int r = MPI_Waitany(n, rq, &i, st); if (i == MPI_UNDEFINED) { *out = MPI_UNDEFINED; return r; } *out = 1; idx[0] = i; return r;
}
int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st) {
  Out o; mseam("MPI_Test");
  if (*rq == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  Req* r = getreq(*rq);
  if (!is_done(r)) { *flag = 0; poll_wait(); return 0; }
  *flag = 1; complete(r, st); *rq = MPI_REQUEST_NULL; return 0;
}
int MPI_Testall(int n, MPI_Request* rq, int* flag, MPI_Status* st) {
  Out o; mseam("MPI_Testall"); bool all = true;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) { Req* r = getreq(rq[i]); if (!is_done(r)) all = false; }
  *flag = all; if (!all) { poll_wait(); return 0; }
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) { complete(getreq(rq[i]), st ? &st[i] : nullptr); rq[i] = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Request_free(MPI_Request* rq) { Req* r = getreq(*rq); r->freed = true; *rq = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request* rq) { Req* r = getreq(*rq); Comm* c = comms[r->comm - 100]; if (!r->done) { c->recvs.remove(r); r->done = true; r->delivered = true; } return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm h, MPI_Status* stt) {
  Out o; mseam("MPI_Sendrecv"); Comm* c = getcomm(h, "MPI_Sendrecv");
  Req* r = start_recv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv");
  Req* q = start_send(sb, sn, st, d, stag, c, false, false, "MPI_Sendrecv");
  wait_req(r, "MPI_Sendrecv"); wait_req(q, "MPI_Sendrecv"); complete(r, stt); complete(q, nullptr); return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm h, MPI_Status* stt) {
  vector<uint8_t> cp((uint8_t*)b, (uint8_t*)b + (size_t)n * tsize(t));
  return MPI_Sendrecv(cp.data(), n, t, d, stag, b, n, t, s, rtag, h, stt);
}
static Msg* find_msg(Comm* c, int me, int s, int tag) {
  for (Msg* m : c->msgs) if (m->dst == me && m->arrive <= NOW && (s == MPI_ANY_SOURCE || s == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return m;
  return nullptr;
}
static void fill(MPI_Status* st, Msg* m) { CUR->polls = 0; if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->sim_count = (int)m->snap.size(); st->sim_type = m->type; } }
int MPI_Probe(int s, int tag, MPI_Comm h, MPI_Status* st) {
  Out o; mseam("MPI_Probe"); Comm* c = getcomm(h, "MPI_Probe"); int me = myrank(c, "MPI_Probe");
  auto f = [=]() { return find_msg(c, me, s, tag) != nullptr; };
  if (!f()) block_until("MPI_Probe", f);
  fill(st, find_msg(c, me, s, tag)); return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm h, int* flag, MPI_Status* st) {
  Out o; mseam("MPI_Iprobe"); Comm* c = getcomm(h, "MPI_Iprobe"); int me = myrank(c, "MPI_Iprobe");
  Msg* m = find_msg(c, me, s, tag); *flag = m != nullptr; if (m) fill(st, m); else poll_wait(); return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->sim_count % (int)tsize(t) ? MPI_UNDEFINED : st->sim_count / (int)tsize(t); return 0; }

// ---------------------------------------------------------------- collectives
static std::shared_ptr<Coll> enter(Comm* c, int me, const char* type, int root, int op, int dt, u64 count, const void* in, size_t inlen) {
  u64 k = c->collseq[me]++;
  auto& p = c->colls[k];
  if (!p) {
    p = std::make_shared<Coll>(); p->type = type; p->root = root; p->op = op; p->dt = dt; p->count = count; p->n = (int)c->members.size();
    p->here.assign(p->n, false); p->in.resize(p->n); p->at.assign(p->n, 0); p->first = CUR->op;
  } else if (p->type != type || p->root != root || p->op != op || p->count != count) {
    violation("mpi-collective", sfmt("ranks call different collectives: %s(root %d, count %llu) against %s(root %d, count %llu)", type, root, (unsigned long long)count,
      p->type.c_str(), p->root, (unsigned long long)p->count));
  }
  auto q = p;
  q->here[me] = true; q->arrived++;
  if (in) q->in[me].assign((const uint8_t*)in, (const uint8_t*)in + inlen);
  u64 d = c->job->maxdelay ? pick(D, c->job->maxdelay + 1) : 0;
  q->at[me] = NOW + d; future_event(NOW + d);
  ev(type, (u64)(long)root, count, hashstr(in ? string((const char*)in, inlen) : ""));
  return q;
}
static bool all_in(const std::shared_ptr<Coll>& q) { if (q->arrived < q->n) return false; for (u64 t : q->at) if (t > NOW) return false; return true; }
static void wait_all(const std::shared_ptr<Coll>& q, const char* fn) { if (!all_in(q)) block_until(fn, [q]() { return all_in(q); }); }
static void wait_rank(const std::shared_ptr<Coll>& q, int r, const char* fn) {
  auto ok = [q, r]() { return q->here[r] && q->at[r] <= NOW; }; if (!ok()) block_until(fn, ok);
}
extern "C++" template <class T> void red(T* a, const T* b, u64 n, int op) {
  for (u64 i = 0; i < n; i++) switch (op) {
    case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
    case MPI_SUM: a[i] = (T)(a[i] + b[i]); break;
    case MPI_PROD: a[i] = (T)(a[i] * b[i]); break;
    case MPI_LAND: a[i] = (T)(a[i] && b[i]); break;
    case MPI_LOR: a[i] = (T)(a[i] || b[i]); break;
    case MPI_LXOR: a[i] = (T)(!a[i] != !b[i]); break;
    case MPI_BAND: a[i] = (T)((long long)a[i] & (long long)b[i]); break;
    case MPI_BOR: a[i] = (T)((long long)a[i] | (long long)b[i]); break;
    case MPI_BXOR: a[i] = (T)((long long)a[i] ^ (long long)b[i]); break;
    default: violation("mpi-usage", "unsupported reduction operation");
  }
}
static void reduce(vector<uint8_t>& a, const vector<uint8_t>& b, u64 n, int dt, int op) {
  switch (dt) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: red((int8_t*)a.data(), (const int8_t*)b.data(), n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_BYTE: red((uint8_t*)a.data(), (const uint8_t*)b.data(), n, op); break;
    case MPI_SHORT: case MPI_INT16_T: red((int16_t*)a.data(), (const int16_t*)b.data(), n, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: red((uint16_t*)a.data(), (const uint16_t*)b.data(), n, op); break;
    case MPI_INT: case MPI_INT32_T: red((int32_t*)a.data(), (const int32_t*)b.data(), n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: red((uint32_t*)a.data(), (const uint32_t*)b.data(), n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: red((int64_t*)a.data(), (const int64_t*)b.data(), n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red((uint64_t*)a.data(), (const uint64_t*)b.data(), n, op); break;
    case MPI_DOUBLE: red((double*)a.data(), (const double*)b.data(), n, op); break;
    case MPI_FLOAT: red((float*)a.data(), (const float*)b.data(), n, op); break;
    default: violation("mpi-usage", "unsupported reduction type");
  }
}
int MPI_Barrier(MPI_Comm h) { Out o; mseam("MPI_Barrier"); Comm* c = getcomm(h, "MPI_Barrier"); auto q = enter(c, myrank(c, "MPI_Barrier"), "MPI_Barrier", 0, 0, 0, 0, nullptr, 0); wait_all(q, "MPI_Barrier"); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm h) {
  Out o; mseam("MPI_Bcast"); Comm* c = getcomm(h, "MPI_Bcast"); int me = myrank(c, "MPI_Bcast");
  if (root < 0 || root >= (int)c->members.size() || n < 0) violation("mpi-usage", sfmt("MPI_Bcast with invalid root %d or count %d", root, n));
  size_t len = (size_t)n * tsize(t);
  auto q = enter(c, me, "MPI_Bcast", root, 0, t, len, me == root ? b : nullptr, len);
  bool sync = chance(D, 1, 4);
  if (me != root) { wait_rank(q, root, "MPI_Bcast"); if (len) memcpy(b, q->in[root].data(), len); }
  else if (chance(D, 1, 4)) wait_all(q, "MPI_Bcast");
  if (sync && me != root) wait_all(q, "MPI_Bcast");
  return 0;
}
static int do_reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h, const char* fn, int mode) {
  // mode 0 reduce, 1 allreduce, 2 scan, 3 exscan
  Out o; mseam(fn); Comm* c = getcomm(h, fn); int me = myrank(c, fn);
  if (n < 0) violation("mpi-usage", sfmt("%s with negative count", fn));
  size_t len = (size_t)n * tsize(t);
  auto q = enter(c, me, fn, root, op, t, len, in == MPI_IN_PLACE ? out : in, len);
  int lo = 0, hi = q->n;
  if (mode == 2) hi = me + 1; else if (mode == 3) hi = me;
  if (mode >= 2) { for (int r = 0; r < hi; r++) wait_rank(q, r, fn); }
  else if (mode == 1 || me == root) wait_all(q, fn);
  else { if (chance(D, 1, 4)) wait_all(q, fn); return 0; }
  if (hi == lo) return 0;
  vector<uint8_t> a = q->in[0];
  for (int r = 1; r < hi; r++) reduce(a, q->in[r], (u64)n, t, op);
  if (len) memcpy(out, a.data(), len);
  return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h) { return do_reduce(in, out, n, t, op, root, h, "MPI_Reduce", 0); }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return do_reduce(in, out, n, t, op, 0, h, "MPI_Allreduce", 1); }
int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return do_reduce(in, out, n, t, op, 0, h, "MPI_Scan", 2); }
int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return do_reduce(in, out, n, t, op, 0, h, "MPI_Exscan", 3); }
int MPI_Gatherv(const void* in, int n, MPI_Datatype t, void* out, const int* cnt, const int* disp, MPI_Datatype rt, int root, MPI_Comm h) {
  Out o; mseam("MPI_Gatherv"); Comm* c = getcomm(h, "MPI_Gatherv"); int me = myrank(c, "MPI_Gatherv");
  size_t len = (size_t)n * tsize(t);
  const void* src = in; if (in == MPI_IN_PLACE) { src = (char*)out + (size_t)disp[me] * tsize(rt); len = (size_t)cnt[me] * tsize(rt); }
  auto q = enter(c, me, "MPI_Gatherv", root, 0, 0, 0, src, len);
  if (me == root) { wait_all(q, "MPI_Gatherv"); for (int r = 0; r < q->n; r++) { if (q->in[r].size() > (size_t)cnt[r] * tsize(rt)) violation("mpi-usage", "MPI_Gatherv truncation"); memcpy((char*)out + (size_t)disp[r] * tsize(rt), q->in[r].data(), q->in[r].size()); } }
  return 0;
}
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm h) {
  Out o; mseam("MPI_Gather"); Comm* c = getcomm(h, "MPI_Gather"); int me = myrank(c, "MPI_Gather");
  size_t len = (size_t)n * tsize(t); const void* src = in; if (in == MPI_IN_PLACE) { len = (size_t)rn * tsize(rt); src = (char*)out + len * me; }
  auto q = enter(c, me, "MPI_Gather", root, 0, 0, len, src, len);
  if (me == root) { wait_all(q, "MPI_Gather"); for (int r = 0; r < q->n; r++) memcpy((char*)out + len * r, q->in[r].data(), len); }
  return 0;
}
int MPI_Scatter(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm h) {
  Out o; mseam("MPI_Scatter"); Comm* c = getcomm(h, "MPI_Scatter"); int me = myrank(c, "MPI_Scatter"); (void)n; (void)t;
  size_t len = (size_t)rn * tsize(rt);
  auto q = enter(c, me, "MPI_Scatter", root, 0, 0, len, me == root ? in : nullptr, me == root ? len * c->members.size() : 0);
  wait_rank(q, root, "MPI_Scatter"); if (out != MPI_IN_PLACE && len) memcpy(out, q->in[root].data() + len * me, len); return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm h) {
  Out o; mseam("MPI_Allgather"); Comm* c = getcomm(h, "MPI_Allgather"); int me = myrank(c, "MPI_Allgather");
  size_t len = (size_t)n * tsize(t); const void* src = in; if (in == MPI_IN_PLACE) { len = (size_t)rn * tsize(rt); src = (char*)out + len * me; }
  auto q = enter(c, me, "MPI_Allgather", 0, 0, 0, len, src, len); wait_all(q, "MPI_Allgather");
  for (int r = 0; r < q->n; r++) memcpy((char*)out + len * r, q->in[r].data(), len); return 0;
}
int MPI_Allgatherv(const void* in, int n, MPI_Datatype t, void* out, const int* cnt, const int* disp, MPI_Datatype rt, MPI_Comm h) {
  Out o; mseam("MPI_Allgatherv"); Comm* c = getcomm(h, "MPI_Allgatherv"); int me = myrank(c, "MPI_Allgatherv");
  size_t len = (size_t)n * tsize(t); const void* src = in; if (in == MPI_IN_PLACE) { src = (char*)out + (size_t)disp[me] * tsize(rt); len = (size_t)cnt[me] * tsize(rt); }
  auto q = enter(c, me, "MPI_Allgatherv", 0, 0, 0, 0, src, len); wait_all(q, "MPI_Allgatherv");
  for (int r = 0; r < q->n; r++) memcpy((char*)out + (size_t)disp[r] * tsize(rt), q->in[r].data(), q->in[r].size()); return 0;
}
int MPI_Scatterv(const void* in, const int* cnt, const int* disp, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm h) {
  Out o; mseam("MPI_Scatterv"); Comm* c = getcomm(h, "MPI_Scatterv"); int me = myrank(c, "MPI_Scatterv");
  // the root's contribution: for every rank a length and the bytes
  vector<uint8_t> pk; size_t n = c->members.size();
  if (me == root) for (size_t r = 0; r < n; r++) { size_t l = (size_t)cnt[r] * tsize(t); pk.insert(pk.end(), (uint8_t*)&l, (uint8_t*)(&l + 1)); const uint8_t* p = (const uint8_t*)in + (size_t)disp[r] * tsize(t); pk.insert(pk.end(), p, p + l); }
  auto q = enter(c, me, "MPI_Scatterv", root, 0, 0, 0, me == root ? pk.data() : nullptr, pk.size());
  wait_rank(q, root, "MPI_Scatterv");
  const uint8_t* p = q->in[root].data(); size_t l = 0;
  for (int r = 0; r <= me; r++) { if (r) p += l; memcpy(&l, p, sizeof l); p += sizeof l; }
  if (out == MPI_IN_PLACE) return 0;
  if (l > (size_t)rn * tsize(rt)) violation("mpi-usage", "MPI_Scatterv truncation");
  if (l) memcpy(out, p, l);
  return 0;
}
int MPI_Alltoallv(const void* in, const int* cnt, const int* disp, MPI_Datatype t, void* out, const int* rcnt, const int* rdisp, MPI_Datatype rt, MPI_Comm h) {
  Out o; mseam("MPI_Alltoallv"); Comm* c = getcomm(h, "MPI_Alltoallv"); int me = myrank(c, "MPI_Alltoallv");
  if (in == MPI_IN_PLACE) { in = out; cnt = rcnt; disp = rdisp; t = rt; }
  vector<uint8_t> pk; size_t n = c->members.size();
  for (size_t r = 0; r < n; r++) { size_t l = (size_t)cnt[r] * tsize(t); pk.insert(pk.end(), (uint8_t*)&l, (uint8_t*)(&l + 1)); const uint8_t* p = (const uint8_t*)in + (size_t)disp[r] * tsize(t); pk.insert(pk.end(), p, p + l); }
  auto q = enter(c, me, "MPI_Alltoallv", 0, 0, 0, 0, pk.data(), pk.size()); wait_all(q, "MPI_Alltoallv");
  for (size_t s = 0; s < n; s++) {
    const uint8_t* p = q->in[s].data(); size_t l = 0;
    for (int r = 0; r <= me; r++) { if (r) p += l; memcpy(&l, p, sizeof l); p += sizeof l; }
    if (l > (size_t)rcnt[s] * tsize(rt)) violation("mpi-usage", "MPI_Alltoallv truncation");
    if (l) memcpy((char*)out + (size_t)rdisp[s] * tsize(rt), p, l);
  }
  return 0;
}
int MPI_Reduce_scatter_block(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  Out o; mseam("MPI_Reduce_scatter_block"); Comm* c = getcomm(h, "MPI_Reduce_scatter_block"); int me = myrank(c, "MPI_Reduce_scatter_block");
  size_t len = (size_t)n * tsize(t); auto q = enter(c, me, "MPI_Reduce_scatter_block", 0, op, t, len, in == MPI_IN_PLACE ? out : in, len * c->members.size());
  wait_all(q, "MPI_Reduce_scatter_block");
  vector<uint8_t> a(q->in[0].begin() + len * me, q->in[0].begin() + len * (me + 1));
  for (int r = 1; r < q->n; r++) { vector<uint8_t> b(q->in[r].begin() + len * me, q->in[r].begin() + len * (me + 1)); reduce(a, b, (u64)n, t, op); }
  if (len) memcpy(out, a.data(), len);
  return 0;
}
int MPI_Alltoall(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm h) {
  Out o; mseam("MPI_Alltoall"); Comm* c = getcomm(h, "MPI_Alltoall"); int me = myrank(c, "MPI_Alltoall"); (void)rn; (void)rt;
  size_t len = (size_t)n * tsize(t); auto q = enter(c, me, "MPI_Alltoall", 0, 0, 0, len, in == MPI_IN_PLACE ? out : in, len * c->members.size()); wait_all(q, "MPI_Alltoall");
  for (int r = 0; r < q->n; r++) memcpy((char*)out + len * r, q->in[r].data() + len * me, len); return 0;
}
int MPI_Comm_split(MPI_Comm h, int color, int key, MPI_Comm* out) {
  Out o; mseam("MPI_Comm_split"); Comm* c = getcomm(h, "MPI_Comm_split"); int me = myrank(c, "MPI_Comm_split");
  int d[2] = {color, key}; auto q = enter(c, me, "MPI_Comm_split", 0, 0, 0, 8, d, 8); wait_all(q, "MPI_Comm_split");
  static map<std::pair<Coll*, int>, int> made; 
  if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
  auto kk = std::make_pair(q.get(), color);
  // the first rank of this colour to pass creates the communicator
  if (q->first != "split-done" ) { q->first = "split-done"; for (auto it = made.begin(); it != made.end();) { if (it->first.first == q.get()) it = made.erase(it); else ++it; } }
  if (!made.count(kk)) {
    vector<std::pair<int, int>> v; for (int r = 0; r < q->n; r++) { int* x = (int*)q->in[r].data(); if (x[0] == color) v.push_back({x[1], r}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    Comm* nc = new Comm; nc->id = 100 + (int)comms.size(); nc->job = c->job; for (auto& x : v) nc->members.push_back(c->members[x.second]); nc->collseq.assign(v.size(), 0); comms.push_back(nc);
    made[kk] = nc->id;
  }
  *out = made[kk]; return 0;
}
int MPI_Comm_dup(MPI_Comm h, MPI_Comm* out) { Comm* c = getcomm(h, "MPI_Comm_dup"); return MPI_Comm_split(h, 0, myrank(c, "MPI_Comm_dup"), out); }
int MPI_Comm_free(MPI_Comm* h) { Out o; *h = MPI_COMM_NULL; return 0; }

#include "mpi_more.h"

// hook in the library (KVTREE_SIM): segment size used to group ranks under writers
unsigned long kvtree_sim_segsize(unsigned long dflt) { Job* j = CUR ? CUR->proc->job : nullptr; return j && j->segsize ? j->segsize : dflt; }
} // extern "C"

string mpi_leftovers(Job* j) {
  for (Comm* c : comms) if (c->job == j) {
    progress_all(c);
    for (Msg* m : c->msgs) if (!m->app) return sfmt("a message of %zu bytes from rank %d to rank %d (tag %d) was never received", m->snap.size(), m->src, m->dst, m->tag);
    for (Req* r : c->recvs) if (!r->app) return sfmt("a receive posted in %s was never completed", r->op.c_str());
    for (Msg* m : c->msgs) if (m->app) return "an application message disappeared or was not received";
  }
  for (Req* r : reqs) if (r->active && !r->freed && r->owner->job == j) return sfmt("a %s request started in %s was never waited for", r->send ? "send" : "receive", r->op.c_str());
  return "";
}
