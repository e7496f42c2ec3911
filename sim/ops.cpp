#include "ops.h"
const char* RKNAME[] = {"read_file", "read_with_lock", "lock_open_read", "read_fd"};
const char* WKNAME[] = {"write_file", "write_with_lock", "lock_open_read+write_close_unlock", "write_fd"};
string handed_check(int rc, int fd, const string& path, const set<int>& before) {
  Proc* p = CUR->proc;
  if (rc != KV_OK) {
    if (fd >= 0) return sfmt("kvtree_lock_open_read failed but handed out descriptor %d", fd);
    for (auto& k : p->fds) if (!before.count(k.first)) return sfmt("kvtree_lock_open_read failed but left descriptor %d open", k.first);
    return "";
  }
  if (fd < 0) return "kvtree_lock_open_read succeeded but handed out no descriptor";
  auto it = p->fds.find(fd);
  if (it == p->fds.end() || before.count(fd)) return sfmt("kvtree_lock_open_read handed out descriptor %d, which it did not open", fd);
  if (it->second->path != fs_norm(p, path)) return "kvtree_lock_open_read handed out a descriptor of " + it->second->path;
  Inode& i = *it->second->ino;
  if (i.flock_ex != it->second->id && i.plk_ex != p->id) return "kvtree_lock_open_read succeeded without holding an exclusive lock";
  return "";
}
static set<int> fdset() { set<int> s; for (auto& k : CUR->proc->fds) s.insert(k.first); return s; }
int read_op(int kind, const string& path, kvtree* dst, string* complaint) {
  op_begin();
  int rc;
  switch (kind) {
    case RK_FILE: rc = CALL(kvtree_read_file, path.c_str(), dst); break;
    case RK_LOCK: rc = CALL(kvtree_read_with_lock, path.c_str(), dst); break;
    case RK_OPEN: {
      int fd = -77; set<int> b = fdset();
      rc = CALL(kvtree_lock_open_read, path.c_str(), &fd, dst);
      string c = handed_check(rc, fd, path, b);
      if (!c.empty()) { if (complaint) *complaint = c; }
      if (rc == KV_OK && fd >= 0) app_close(fd);
      break; }
    default: {
      string n = fs_norm(CUR->proc, path);
      if (!fs_ino(n)) return 1;
      int fd = fs_app_open(CUR->proc, n); CUR->proc->appfds.erase(fd);
      ssize_t r = CALL(kvtree_read_fd, path.c_str(), fd, dst);
      CUR->proc->fds.erase(fd);
      rc = r >= 0 ? KV_OK : 1; }
  }
  note(sfmt("%s(%s) -> %s", RKNAME[kind], path.c_str(), res(rc).c_str()));
  return rc;
}
Rd read_fresh(int kind, const string& path) {
  Rd r; kvtree* h = to_lib(Tree()); r.rc = read_op(kind, path, h); r.t = from_lib(h); del_lib(h);
  return r;
}
int write_op(int kind, const string& path, const Tree& t, Rd* rd, const std::function<void()>& started) {
  int rc;
  kvtree* h = to_lib(t);
  switch (kind) {
    case WK_FILE: op_begin(); if (started) started(); rc = CALL(kvtree_write_file, path.c_str(), h); break;
    case WK_LOCK: op_begin(); if (started) started(); rc = CALL(kvtree_write_with_lock, path.c_str(), h); break;
    case WK_RMW: {
      int fd = -77; kvtree* d = to_lib(Tree());
      op_begin(); rc = CALL(kvtree_lock_open_read, path.c_str(), &fd, d);
      if (rd) { rd->rc = rc; rd->t = from_lib(d); }
      del_lib(d);
      if (rc == KV_OK) { op_begin(); if (started) started(); rc = CALL(kvtree_write_close_unlock, path.c_str(), &fd, h); }
      break; }
    default: {
      string n = fs_norm(CUR->proc, path); auto old = fs_ino(n);
      fs_put(n, "", old ? old->mode : 0644);
      int fd = fs_app_open(CUR->proc, n); CUR->proc->appfds.erase(fd);
      op_begin(); if (started) started();
      ssize_t r = CALL(kvtree_write_fd, path.c_str(), fd, h);
      CUR->proc->fds.erase(fd);
      rc = r >= 0 ? KV_OK : 1;
      if (rc == KV_OK && (u64)r != bytes_of(path).size()) violation("wrong-count", sfmt("kvtree_write_fd returned %zd for a file of %zu bytes", r, bytes_of(path).size())); }
  }
  del_lib(h);
  note(sfmt("%s(%s, tree %016llx, %llu nodes) -> %s", WKNAME[kind], path.c_str(), (unsigned long long)thash(t), (unsigned long long)tnodes(t), res(rc).c_str()));
  return rc;
}
Tree rank_tree(const vector<Tree>& v) { Tree t; for (size_t i = 0; i < v.size(); i++) t[sfmt("%zu", i)] = v[i]; return t; }
int write_set(const string& prefix, const Tree& data, int ranks, const char* epf) {
  if (epf) CUR->proc->env["KVTREE_ENTRIES_PER_FILE"] = epf; else CUR->proc->env.erase("KVTREE_ENTRIES_PER_FILE");
  kvtree* h = to_lib(data);
  op_begin();
  int rc = CALL(kvtree_write_to_gather, prefix.c_str(), h, ranks);
  del_lib(h);
  note(sfmt("write_to_gather(%s, %zu ranks, tree %016llx, entries per file %s) -> %s", prefix.c_str(), data.kids.size(), (unsigned long long)thash(data), epf ? epf : "default", res(rc).c_str()));
  return rc;
}
Rd read_set(const string& prefix) {
  Rd r; kvtree* h = to_lib(Tree()); op_begin();
  r.rc = CALL(kvtree_read_scatter_single, prefix.c_str(), h); r.t = from_lib(h); del_lib(h);
  note(sfmt("read_scatter_single(%s) -> %s", prefix.c_str(), res(r.rc).c_str()));
  return r;
}
string bytes_of(const string& path) { string b; fs_get(fs_norm(nullptr, path), b); return b; }
string garbage(u32 n, u32 seed) { Rng r(seed); string s; for (u32 i = 0; i < n; i++) s += (char)r.next(); return s; }
GenOpt normal_opt() { GenOpt o; return o; }
GenOpt big_opt() { GenOpt o; o.whuge = 1; return o; }
string why_not(const Tree& want, const Rd& got) {
  if (got.rc != KV_OK) return "the read failed";
  if (got.t != want) return "the read returned other data: " + tdiff(want, got.t);
  return "";
}
