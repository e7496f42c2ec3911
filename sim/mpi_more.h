// MPI calls the library does not make today, so that code using them stays inside the simulation. Included by mpisim.cpp.
int MPI_Init_thread(int*, char***, int want, int* got) { *got = want; return 0; }
int MPI_Query_thread(int* t) { *t = MPI_THREAD_SINGLE; return 0; }
int MPI_Is_thread_main(int* t) { *t = 1; return 0; }
int MPI_Error_class(int e, int* c) { *c = e; return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Comm_get_attr(MPI_Comm h, int, void* v, int* flag) { static int ub = 32767; getcomm(h, "MPI_Comm_get_attr"); *(int**)v = &ub; *flag = 1; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  Comm *x = getcomm(a, "MPI_Comm_compare"), *y = getcomm(b, "MPI_Comm_compare");
  vector<Proc*> p = x->members, q = y->members; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
  *r = x == y ? MPI_IDENT : x->members == y->members ? MPI_CONGRUENT : p == q ? MPI_SIMILAR : MPI_UNEQUAL; return 0;
}
int MPI_Comm_test_inter(MPI_Comm h, int* f) { getcomm(h, "MPI_Comm_test_inter"); *f = 0; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler* e) { *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* out) { if (n < 0) violation("mpi-usage", "MPI_Type_contiguous with negative count"); dtypes.push_back((size_t)n * tsize(t)); *out = 0x100000 + (int)dtypes.size() - 1; return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype* t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* ex) { *lb = 0; *ex = (MPI_Aint)tsize(t); return 0; }
int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int* s) { *s = n * (int)tsize(t); return 0; }
int MPI_Pack(const void* in, int n, MPI_Datatype t, void* out, int cap, int* pos, MPI_Comm) {
  size_t l = (size_t)n * tsize(t); if ((size_t)*pos + l > (size_t)cap) violation("mpi-usage", "MPI_Pack beyond the buffer"); memcpy((char*)out + *pos, in, l); *pos += (int)l; return 0;
}
int MPI_Unpack(const void* in, int cap, int* pos, void* out, int n, MPI_Datatype t, MPI_Comm) {
  size_t l = (size_t)n * tsize(t); if ((size_t)*pos + l > (size_t)cap) violation("mpi-usage", "MPI_Unpack beyond the buffer"); memcpy(out, (const char*)in + *pos, l); *pos += (int)l; return 0;
}
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) { return MPI_Get_count(st, t, n); }
int MPI_Testany(int n, MPI_Request* rq, int* idx, int* flag, MPI_Status* st) {
  Out o; mseam("MPI_Testany"); bool any = false; *idx = MPI_UNDEFINED; *flag = 0;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) { any = true; Req* r = getreq(rq[i]); if (is_done(r)) { complete(r, st); rq[i] = MPI_REQUEST_NULL; *idx = i; *flag = 1; return 0; } }
  if (!any) *flag = 1; else poll_wait();
  return 0;
}
int MPI_Testsome(int n, MPI_Request* rq, int* out, int* idx, MPI_Status* st) {
  int i, f; int r = MPI_Testany(n, rq, &i, &f, st); if (!f) *out = 0; else if (i == MPI_UNDEFINED) *out = MPI_UNDEFINED; else { *out = 1; idx[0] = i; } return r;
}
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) {
  Out o; mseam("MPI_Bsend"); Comm* c = getcomm(h, "MPI_Bsend"); Job* j = c->job; u32 e = j->eager_num; j->eager_num = 4;
  Req* r = start_send(b, n, t, d, tag, c, false, false, "MPI_Bsend"); j->eager_num = e; complete(r, nullptr); return 0;
}
int MPI_Buffer_attach(void*, int) { return 0; }
int MPI_Buffer_detach(void*, int*) { return 0; }
static void take(Comm* c, Msg* m, MPI_Message* h, MPI_Status* st) { fill(st, m); c->msgs.remove(m); probed.push_back(m); *h = (int)probed.size(); }
int MPI_Mprobe(int s, int tag, MPI_Comm h, MPI_Message* mh, MPI_Status* st) {
  Out o; mseam("MPI_Mprobe"); Comm* c = getcomm(h, "MPI_Mprobe"); int me = myrank(c, "MPI_Mprobe");
  auto f = [=]() { return find_msg(c, me, s, tag) != nullptr; }; if (!f()) block_until("MPI_Mprobe", f);
  take(c, find_msg(c, me, s, tag), mh, st); return 0;
}
int MPI_Improbe(int s, int tag, MPI_Comm h, int* flag, MPI_Message* mh, MPI_Status* st) {
  Out o; mseam("MPI_Improbe"); Comm* c = getcomm(h, "MPI_Improbe"); Msg* m = find_msg(c, myrank(c, "MPI_Improbe"), s, tag);
  *flag = m != nullptr; if (m) take(c, m, mh, st); else poll_wait(); return 0;
}
int MPI_Imrecv(void* b, int n, MPI_Datatype t, MPI_Message* mh, MPI_Request* rq) {
  Out o; mseam("MPI_Imrecv"); if (*mh < 1 || *mh > (int)probed.size() || !probed[*mh - 1]) violation("mpi-usage", "receive of a message that was not probed");
  Msg* m = probed[*mh - 1]; probed[*mh - 1] = nullptr; *mh = MPI_MESSAGE_NULL;
  Req* r = newreq(false); r->comm = m->comm; r->type = t; r->buf = (uint8_t*)b; r->cap = (size_t)n * tsize(t); if (r->cap) { heap_range(b, r->cap, "MPI receive into"); memset(b, 0xEE, r->cap); }
  deliver(r, m); *rq = r->id; return 0;
}
int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* mh, MPI_Status* st) { MPI_Request r; MPI_Imrecv(b, n, t, mh, &r); return MPI_Wait(&r, st); }
// collectives in progress
static void icoll(MPI_Request* rq, const std::shared_ptr<Coll>& q, Comm* c, int from, const std::function<void()>& fin) {
  Req* r = newreq(true); (void)c; r->ready = [q, from]() { return from < 0 ? all_in(q) : q->here[from] && q->at[from] <= NOW; }; r->fin = fin; *rq = r->id;
}
int MPI_Ibarrier(MPI_Comm h, MPI_Request* rq) { Out o; mseam("MPI_Ibarrier"); Comm* c = getcomm(h, "MPI_Ibarrier"); auto q = enter(c, myrank(c, "MPI_Ibarrier"), "MPI_Ibarrier", 0, 0, 0, 0, nullptr, 0); icoll(rq, q, c, -1, []() {}); return 0; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm h, MPI_Request* rq) {
  Out o; mseam("MPI_Ibcast"); Comm* c = getcomm(h, "MPI_Ibcast"); int me = myrank(c, "MPI_Ibcast"); if (root < 0 || root >= (int)c->members.size() || n < 0) violation("mpi-usage", "MPI_Ibcast with invalid root or count");
  size_t len = (size_t)n * tsize(t); auto q = enter(c, me, "MPI_Ibcast", root, 0, t, len, me == root ? b : nullptr, len);
  icoll(rq, q, c, root, [=]() { if (me != root && len) memcpy(b, q->in[(size_t)root].data(), len); }); return 0;
}
int MPI_Iallreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h, MPI_Request* rq) {
  Out o; mseam("MPI_Iallreduce"); Comm* c = getcomm(h, "MPI_Iallreduce"); size_t len = (size_t)n * tsize(t);
  auto q = enter(c, myrank(c, "MPI_Iallreduce"), "MPI_Iallreduce", 0, op, t, len, in == MPI_IN_PLACE ? out : in, len);
  icoll(rq, q, c, -1, [=]() { vector<uint8_t> a = q->in[0]; for (int r = 1; r < q->n; r++) reduce(a, q->in[(size_t)r], (u64)n, t, op); if (len) memcpy(out, a.data(), len); }); return 0;
}
static int igather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm h, MPI_Request* rq, const char* fn) {
  Out o; mseam(fn); Comm* c = getcomm(h, fn); int me = myrank(c, fn); size_t len = (size_t)n * tsize(t); const void* src = in; if (in == MPI_IN_PLACE) { len = (size_t)rn * tsize(rt); src = (char*)out + len * (size_t)me; }
  auto q = enter(c, me, fn, root, 0, 0, len, src, len); bool rec = root < 0 || me == root;
  icoll(rq, q, c, rec ? -1 : me, [=]() { if (rec) for (int r = 0; r < q->n; r++) memcpy((char*)out + len * (size_t)r, q->in[(size_t)r].data(), len); }); return 0;
}
int MPI_Iallgather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, MPI_Comm h, MPI_Request* rq) { return igather(in, n, t, out, rn, rt, -1, h, rq, "MPI_Iallgather"); }
int MPI_Igather(const void* in, int n, MPI_Datatype t, void* out, int rn, MPI_Datatype rt, int root, MPI_Comm h, MPI_Request* rq) { return igather(in, n, t, out, rn, rt, root, h, rq, "MPI_Igather"); }
int MPI_Reduce_local(const void* in, void* io, int n, MPI_Datatype t, MPI_Op op) {
  size_t len = (size_t)n * tsize(t); vector<uint8_t> a((uint8_t*)in, (uint8_t*)in + len), b((uint8_t*)io, (uint8_t*)io + len); reduce(a, b, (u64)n, t, op); if (len) memcpy(io, a.data(), len); return 0;
}
