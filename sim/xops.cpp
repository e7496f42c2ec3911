#include "xops.h"
const char* XNAME[] = {"write_file", "write_with_lock", "lock_open_read", "lock_open_read+write_close_unlock", "write_fd", "read_file", "read_with_lock", "read_fd",
  "write_to_gather", "read_scatter_single", "write_persist", "print/log", "tree script", "kvtree_print", "bad arguments"};

static void dump_to(const kvtree* h, string& s, int depth) {
  if (depth > 3000) { s += "(too deep)"; return; }
  u64 n = 0;
  for (kvtree_elem* e = L.kvtree_elem_first(h); e; e = L.kvtree_elem_next(e)) {
    const char* k = L.kvtree_elem_key(e); s += k ? sfmt("%zu:", strlen(k)) : string("null"); if (k) s += k;
    s += "{"; dump_to(L.kvtree_elem_hash(e), s, depth + 1); s += "}";
    if (++n > 2000000) { s += "(endless)"; return; }
  }
}
vector<int> SCRIPT_FOCUS; bool DUMP_QUIET = false; bool SCRIPT_ELEM = false;
string dump(const kvtree* h) { LibCall lc("walk-tree"); string s; if (!h) return "(no tree)"; bool q = CUR->nopreempt; if (DUMP_QUIET) CUR->nopreempt = true; dump_to(h, s, 0); CUR->nopreempt = q; return s; }

// ---------------------------------------------------------------- tree scripts
enum { T_SETKV, T_SETKVI, T_UNKV, T_UNKVI, T_SETF, T_GETF, T_MERGE, T_MERGEB, T_SORT, T_SORTI, T_LISTI, T_USET, T_UGET, T_GETVAL, T_FIRSTVAL, T_EXTRACT, T_UNSET, T_PACK, T_PERSIST, T_SENDQ, T_SET, T_GETKV, T_GETKVI, T_UNALL, T_ELEM, T_N };
static const char* TNAME[] = {"set_kv", "set_kv_int", "unset_kv", "unset_kv_int", "setf", "getf", "merge(A,B)", "merge(B,A)", "sort", "sort_int", "list_int", "util_set", "util_get", "get_val", "elem_get_first_val", "extract", "unset", "pack/unpack", "write_persist", "exchange_sendq", "set", "get_kv", "get_kv_int", "unset_all", "elem"};
vector<SS> gen_script(u32 n) {
  vector<SS> v; Rng r(pick(W, 1u << 30));
  static const char* ks[] = {"A", "RANK", "FILE", "size", "k1", "k2", "zz", "crc"};
  for (u32 i = 0; i < n; i++) {
    SS s; s.op = (int)pickw(W, {5, 4, 1, 1, 6, 4, 3, 2, 3, 3, 3, 6, 6, 2, 2, 2, 1, 3, 2, 3, 3, 2, 1, 1, SCRIPT_ELEM ? 3u : 0u});
    if (!SCRIPT_FOCUS.empty() && r.below(4)) s.op = SCRIPT_FOCUS[r.below(SCRIPT_FOCUS.size())];
    if (s.op == T_ELEM && !SCRIPT_ELEM) s.op = T_GETKVI;
    s.k = ks[r.below(8)]; s.n = (long)r.below(40) - 8; s.v = r.below(3) ? sfmt("v%llu", (unsigned long long)r.below(20)) : gen_key(r, true, false);
    if (r.below(12) == 0) { s.v = ""; while (s.v.size() < 900) s.v += (char)('a' + r.below(26)); }
    if (s.op == T_SET || s.op == T_SENDQ) { u64 m = r.below(4); for (u64 x = 0; x < m; x++) s.t[gen_key(r, true, false)][gen_key(r, true, false)]; }
    v.push_back(s);
  }
  return v;
}
void pick_focus() { SCRIPT_FOCUS.clear(); u32 n = range(W, 1, 3); for (u32 i = 0; i < n; i++) SCRIPT_FOCUS.push_back((int)pick(W, T_N)); }
static void kv_build(kvtree* h, const Tree& t) { for (auto& k : t.kids) kv_build(CALL(kvtree_set, h, k.first.c_str(), CALL(kvtree_new)), k.second); }
static StepRes run_step(const SS& s, kvtree* A, kvtree* B) {
  StepRes r; r.ok = true; const char *k = s.k.c_str(), *v = s.v.c_str(); int n = (int)s.n;
  auto rc = [&](int c) { r.ok = c == KV_OK; r.data = sfmt("rc=%d ", c == KV_OK ? 0 : 1); return r.ok; };
  auto ptr = [&](const void* p) { r.ok = p != nullptr; r.data += p ? "found " : "none "; return r.ok; };
  switch (s.op) {
    case T_SETKV: ptr(CALL(kvtree_set_kv, A, k, v)); break;
    case T_SETKVI: ptr(CALL(kvtree_set_kv_int, A, k, n)); break;
    case T_UNKV: rc(CALL(kvtree_unset_kv, A, k, v)); break;
    case T_UNKVI: rc(CALL(kvtree_unset_kv_int, A, k, n)); break;
    case T_SETF: {
      kvtree* c = CALL(kvtree_new); kvtree* q = nullptr;
#define FORMATS(fn, ...) switch (((u32)n + 64) % 9) { \
        case 0: q = CALL(fn, __VA_ARGS__, "%s %d", k, n); break; \
        case 1: q = CALL(fn, __VA_ARGS__, "%s %s", k, v); break; \
        case 2: q = CALL(fn, __VA_ARGS__, "%s %lu %s", k, (unsigned long)s.n * 77777777777ul, v); break; \
        case 3: q = CALL(fn, __VA_ARGS__, "%f %lld", s.n * 1.25, (long long)s.n * -99999999999ll); break; \
        case 4: q = CALL(fn, __VA_ARGS__, "%d", n); break; \
        case 5: q = CALL(fn, __VA_ARGS__, "%#x %#lx", (unsigned)n, (unsigned long)s.n << 20); break; \
        case 6: q = CALL(fn, __VA_ARGS__, "%p %s", (void*)((u64)n + 4096), k); break; \
        case 7: q = CALL(fn, __VA_ARGS__, "%s", k); break; \
        default: q = CALL(fn, __VA_ARGS__, "%s %#x %#lx %llu %d", k, (unsigned)n, (unsigned long)s.n << 20, (unsigned long long)s.n * 3, n + 1); break; \
      }
      FORMATS(kvtree_setf, A, c)
      if (!q) CALL(kvtree_delete, &c);
      ptr(q); break; }
    case T_GETF: {
      kvtree* q = nullptr;
      FORMATS(kvtree_getf, A)
      ptr(q); if (q) r.data += dump(q); break; }
    case T_MERGE: rc(CALL(kvtree_merge, A, B)); break;
    case T_MERGEB: rc(CALL(kvtree_merge, B, A)); break;
    case T_SORT: rc(CALL(kvtree_sort, A, n & 1)); break;
    case T_SORTI: { kvtree* q = CALL(kvtree_get, A, "RANK"); if (q) rc(CALL(kvtree_sort_int, q, n & 1)); break; }
    case T_LISTI: { kvtree* q = CALL(kvtree_get, A, k); if (!q) break; int m = -1; int* l = nullptr; if (rc(CALL(kvtree_list_int, q, &m, &l))) { r.data += sfmt("%d:", m); for (int i = 0; i < m; i++) r.data += sfmt(" %d", l[i]); } if (l) heap_free(l); break; }
    case T_USET: switch (((u32)n + 64) % 8) {
        case 7: rc(CALL(kvtree_util_set_ptr, A, k, (void*)(0x7f0000001000ul + (u64)(s.n + 8) * 16))); break;
        case 0: rc(CALL(kvtree_util_set_int, A, k, n)); break;
        case 1: rc(CALL(kvtree_util_set_str, A, k, v)); break;
        case 2: rc(CALL(kvtree_util_set_double, A, k, n / 3.0)); break;
        case 3: rc(CALL(kvtree_util_set_bytecount, A, k, (unsigned long)s.n)); break;
        case 4: rc(CALL(kvtree_util_set_crc32, A, k, (unsigned long)(u32)n)); break;
        case 5: rc(CALL(kvtree_util_set_int64, A, k, (int64_t)s.n * 1000000007ll)); break;
        default: rc(CALL(kvtree_util_set_unsigned_long, A, k, (unsigned long)s.n)); break;
      } break;
    case T_UGET: { int i = 0; char* c = nullptr; double d = 0; unsigned long u = 0; int64_t l = 0;
      void* pp = nullptr;
      switch (((u32)n + 64) % 8) {
        case 7: if (rc(CALL(kvtree_util_get_ptr, A, k, &pp))) r.data += sfmt("%p", pp); break;
        case 0: if (rc(CALL(kvtree_util_get_int, A, k, &i))) r.data += sfmt("%d", i); break;
        case 1: if (rc(CALL(kvtree_util_get_str, A, k, &c))) r.data += c ? c : "(null)"; break;
        case 2: if (rc(CALL(kvtree_util_get_double, A, k, &d))) r.data += sfmt("%.17g", d); break;
        case 3: if (rc(CALL(kvtree_util_get_bytecount, A, k, &u))) r.data += sfmt("%lu", u); break;
        case 4: if (rc(CALL(kvtree_util_get_crc32, A, k, &u))) r.data += sfmt("%lu", u); break;
        case 5: if (rc(CALL(kvtree_util_get_int64, A, k, &l))) r.data += sfmt("%lld", (long long)l); break;
        default: if (rc(CALL(kvtree_util_get_unsigned_long, A, k, &u))) r.data += sfmt("%lu", u); break;
      } break; }
    case T_GETVAL: { kvtree* q = CALL(kvtree_get, A, k); if (q && CALL(kvtree_size, q) == 1) { char* c = CALL(kvtree_get_val, A, k); if (ptr(c)) r.data += c; } break; }
    case T_FIRSTVAL: { char* c = CALL(kvtree_elem_get_first_val, A, k); if (ptr(c)) r.data += c; break; }
    case T_EXTRACT: { kvtree* q = CALL(kvtree_extract, A, k); if (ptr(q)) { r.data += dump(q); CALL(kvtree_delete, &q); } break; }
    case T_UNSET: rc(CALL(kvtree_unset, A, k)); break;
    case T_PACK: {
      size_t z = CALL(kvtree_pack_size, A); char* b = (char*)malloc(z + 1); size_t w = CALL(kvtree_pack, b, A);
      if (w != z) violation("pack-size", sfmt("kvtree_pack wrote %zu bytes, kvtree_pack_size promised %zu", w, z));
      size_t u = CALL(kvtree_unpack, b, B); r.data = sfmt("%zu %zu %016llx", w, u, (unsigned long long)hashstr(string(b, w))); free(b); break; }
    case T_PERSIST: { void* b = nullptr; size_t z = 0; if (rc(CALL(kvtree_write_persist, &b, &z, A))) { r.data += sfmt("%zu ", z); if (b) { Dec d = dec_file(string((char*)b, z)); r.data += d.ok ? sfmt("%016llx", (unsigned long long)thash(d.t)) : d.why; heap_free(b); } } break; }
    case T_SENDQ: { kvtree* m = CALL(kvtree_new); kv_build(m, s.t); rc(CALL(kvtree_exchange_sendq, A, n, m)); CALL(kvtree_delete, &m); break; }
    case T_SET: { kvtree* m = CALL(kvtree_new); kv_build(m, s.t); ptr(CALL(kvtree_set, A, k, m)); break; }
    case T_GETKV: { kvtree* q = CALL(kvtree_get_kv, A, k, v); if (ptr(q)) r.data += dump(q); r.data += sfmt(" %d", CALL(kvtree_size, A)); break; }
    case T_GETKVI: { kvtree* q = CALL(kvtree_get_kv_int, A, k, n); if (ptr(q)) r.data += dump(q); break; }
    case T_ELEM: {   // extracted elements belong to the caller, who has no call to free them
      kvtree* q = n & 1 ? A : CALL(kvtree_get, A, k); if (!q) break;
      auto el = [&](kvtree_elem* e) { if (ptr(e)) { char* c = CALL(kvtree_elem_key, e); r.data += c ? c : "(null)"; kvtree* h = CALL(kvtree_elem_hash, e); if (h) r.data += dump(h); } };
      kvtree_elem* f = CALL(kvtree_elem_first, q); if (!f) break;
      for (int i = 0; i < (n & 6) && CALL(kvtree_elem_next, f); i += 2) f = CALL(kvtree_elem_next, f);
      int fi = CALL(kvtree_elem_key_int, f); string fk = CALL(kvtree_elem_key, f);
      switch (((u32)n + 64) % 5) {
        case 0: el(CALL(kvtree_elem_get, q, fk.c_str())); break;
        case 1: el(CALL(kvtree_elem_extract, q, fk.c_str())); break;
        case 2: el(CALL(kvtree_elem_extract_by_addr, q, f)); break;
        default: r.data += sfmt("%d ", fi); el(CALL(kvtree_elem_extract_int, q, fi)); break;
      } break; }
    default: rc(CALL(kvtree_unset_all, B)); break;
  }
  r.data = string(TNAME[s.op]) + " " + r.data + " | " + (r.ok ? sfmt("%016llx", (unsigned long long)hashstr(dump(A))) : "");
  return r;
}

// ---------------------------------------------------------------- operations
void XOp::prep() {
  Proc* p = CUR->proc;
  if (use_epf) p->env["KVTREE_ENTRIES_PER_FILE"] = epf;
  string n = fs_norm(p, path);
  switch (k) {
    case X_WRITE: case X_WLOCK: case X_WSET: case X_PERSIST: case X_PRINT: a = to_lib(t); break;
    case X_WFD: a = to_lib(t); if (!fs_exists(n)) fs_put(n, "", 0666 & ~p->umask); appfd = fs_app_open(p, n); p->appfds.erase(appfd); break;
    case X_RFD: a = to_lib(pre); if (fs_exists(n)) { appfd = fs_app_open(p, n); p->appfds.erase(appfd); } break;
    case X_RMW: a = to_lib(pre); b = to_lib(t); break;
    case X_READ: case X_RLOCK: case X_OPENREAD: case X_RSET: a = to_lib(pre); break;
    case X_SCRIPT: a = to_lib(Tree()); b = to_lib(pre); break;
    case X_BAD: a = to_lib(t); break;
    default: break;
  }
}
void XOp::go() {
  Proc* p = CUR->proc; const char* c = path.c_str(); op_begin();
  switch (k) {
    case X_WRITE: rc = CALL(kvtree_write_file, c, a); break;
    case X_WLOCK: rc = CALL(kvtree_write_with_lock, c, a); break;
    case X_OPENREAD: rc = CALL(kvtree_lock_open_read, c, &fd, a); handed = rc == KV_OK; break;
    case X_RMW: rc = CALL(kvtree_lock_open_read, c, &fd, a); if (rc == KV_OK) { op_begin(); rc2 = CALL(kvtree_write_close_unlock, c, &fd, b); } break;
    case X_WFD: { ssize_t w = CALL(kvtree_write_fd, c, appfd, a); rc = w >= 0 ? KV_OK : 1; break; }
    case X_READ: rc = CALL(kvtree_read_file, c, a); break;
    case X_RLOCK: rc = CALL(kvtree_read_with_lock, c, a); break;
    case X_RFD: if (appfd < 0) { rc = 1; break; } { ssize_t w = CALL(kvtree_read_fd, c, appfd, a); rc = w >= 0 ? KV_OK : 1; } break;
    case X_WSET: rc = CALL(kvtree_write_to_gather, c, a, ranks); break;
    case X_RSET: rc = CALL(kvtree_read_scatter_single, c, a); break;
    case X_PERSIST: rc = CALL(kvtree_write_persist, &buf, &len, a); break;
    case X_PRINT: p->out.clear(); switch (variant % 4) { case 0: rc = CALL(kvtree_print, a, variant % 3); break; case 1: rc = CALL(kvtree_print_mode, a, 2, 1 + variant % 2); break; case 2: rc = CALL(kvtree_log, a, 0, 0); break; default: rc = CALL(kvtree_log, a, 1, 3); } break;
    case X_SCRIPT: for (const SS& s : sc) steps.push_back(run_step(s, a, b)); rc = KV_OK; break;
    case X_TOOL: p->out.clear(); if (variant % 3 == 0) rc = run_print({path}); else rc = run_print({"-m", variant % 3 == 1 ? "tree" : "keyval", path}); break;
    case X_BAD: {
      int f = -77; kvtree* nul = nullptr; char* cs = nullptr; int iv; rc = KV_OK; auto bad = [&](int x, const char*) { rc = x; };
      switch ((u32)variant % 13) {
        case 0: bad(CALL(kvtree_write_file, nullptr, a), "kvtree_write_file"); break;
        case 1: bad(CALL(kvtree_write_file, c, nul), "kvtree_write_file"); break;
        case 2: bad(CALL(kvtree_read_file, nullptr, a), "kvtree_read_file"); break;
        case 3: bad(CALL(kvtree_read_with_lock, nullptr, a), "kvtree_read_with_lock"); break;
        case 4: bad(CALL(kvtree_write_with_lock, nullptr, a), "kvtree_write_with_lock"); break;
        case 5: bad(CALL(kvtree_lock_open_read, nullptr, &f, a), "kvtree_lock_open_read"); break;
        case 6: bad(CALL(kvtree_read_file, c, nul), "kvtree_read_file"); break;
        case 7: bad(CALL(kvtree_write_with_lock, c, nul), "kvtree_write_with_lock"); break;
        case 8: bad(CALL(kvtree_util_get_int, nul, "k", &iv), "kvtree_util_get_int"); break;
        case 9: CALL(kvtree_get, nul, "k"); break;
        case 10: CALL(kvtree_getf, nul, "%s", "k"); break;
        case 11: bad(CALL(kvtree_util_get_str, nul, "k", &cs), "kvtree_util_get_str"); break;
        default: CALL(kvtree_delete, &nul); CALL(kvtree_size, nul); break;
      }
      break; }
    default: break;
  }
}
void XOp::post() {
  Proc* p = CUR->proc; string n = fs_norm(p, path);
  ok = rc == KV_OK;
  out = sfmt("%s rc=%d ", XNAME[k], ok ? 0 : 1);
  switch (k) {
    case X_OPENREAD: case X_READ: case X_RLOCK: case X_RFD: got = from_lib(a); out += dump(a); break;
    case X_RSET: got = from_lib(a); out += tshow(got, 1 << 20); break;
    case X_RMW: got = from_lib(a); out += dump(a); ok = ok && rc2 == KV_OK; out += sfmt(" rc2=%d ", rc2 == KV_OK ? 0 : 1); break;
    case X_SCRIPT: out += "A: " + dump(a) + " B: " + dump(b); for (auto& s : steps) out += "\n" + s.data; break;
    case X_PERSIST: if (ok && buf) { persisted.assign((char*)buf, len); heap_free(buf); buf = nullptr; out += sfmt("%zu %016llx", len, (unsigned long long)hashstr(persisted)); } break;
    case X_TOOL: out += p->out; break;
    case X_PRINT: { string o = p->out; out += o; break; }
    default: break;
  }
  if (writes() && !set()) { auto i = fs_ino(n); if (i) out += sfmt(" file %016llx mode %o", (unsigned long long)hashstr(bytes_of(path)), i->mode); else out += " no file"; }
  if (k == X_WSET) for (auto& f : fs_list(n)) { auto i = fs_ino(f); if (i && !i->dir) out += sfmt(" %s %016llx mode %o", f.c_str(), (unsigned long long)hashstr(bytes_of(f)), i->mode); }
  note(sfmt("%s(%s) -> %s", XNAME[k], path.c_str(), ok ? "success" : "failure"));
  if (handed && fd >= 0) app_close(fd);
  if (appfd >= 0) { if (p->fds.count(appfd)) p->fds.erase(appfd); appfd = -1; }
  if (a) del_lib(a);
  if (b) del_lib(b);
  a = b = nullptr;
}
void XOp::release() { a = b = nullptr; appfd = -1; buf = nullptr; }
string XOp::show() const { return sfmt("%s(%s)", XNAME[k], path.c_str()); }

XOp gen_xop(const vector<XK>& kinds, const string& path, const string& prefix, const GenOpt& go) {
  XOp x; x.k = kinds[pick(W, (u32)kinds.size())]; x.path = x.set() ? prefix : path; x.variant = (int)pick(W, 60);
  switch (x.k) {
    case X_WSET: { int n = (int)skewed(W, 1, 12); x.ranks = n; x.t = rank_tree(rank_data(n)); static const char* e[] = {"1", "2", "3", "5", "8192"}; if (chance(W, 2, 3)) { x.use_epf = true; x.epf = e[pick(W, 5)]; } break; }
    case X_SCRIPT: x.sc = gen_script((SCRIPT_FOCUS.empty() ? 1 : 8) + skewed(W, 0, 24)); x.pre = gen_small(); break;
    case X_PRINT: { GenOpt g = go; g.whuge = 0; x.t = gen_tree(g); break; }
    case X_BAD: x.t = gen_small(); break;
    case X_RMW: x.t = gen_tree(go); x.pre = chance(W, 1, 2) ? Tree() : gen_small(); break;
    default: if (x.reads()) x.pre = chance(W, 1, 2) ? Tree() : gen_small(); else x.t = gen_tree(go);
  }
  return x;
}
