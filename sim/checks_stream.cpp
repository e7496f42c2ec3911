// C24: records and application data in sequence through descriptors of files and pipes.
#include "checks.h"
extern "C" { ssize_t sim_read(int, void*, size_t); ssize_t sim_write(int, const void*, size_t); }
namespace {
struct Item { bool rec; Tree t; string raw; u64 size; };
struct Calm { Proc* p; FaultPlan* pl; string op; Calm(const char* n) : p(CUR->proc), pl(p->plan), op(CUR->op) { p->plan = nullptr; CUR->op = n; } ~Calm() { p->plan = pl; CUR->op = op; } };
bool app_write(int fd, const string& s) {
  Calm c("app:write"); size_t n = 0;
  while (n < s.size()) { ssize_t r = sim_write(fd, s.data() + n, s.size() - n); if (r < 0 && errno == EAGAIN) { yield_point("app"); continue; } if (r <= 0) return false; n += (size_t)r; }
  return true;
}
bool app_read(int fd, size_t want, string& s) {
  Calm c("app:read"); s.assign(want, 0); size_t n = 0;
  while (n < want) { ssize_t r = sim_read(fd, &s[n], want - n); if (r < 0 && errno == EAGAIN) { yield_point("app"); continue; } if (r <= 0) { s.resize(n); return false; } n += (size_t)r; }
  return true;
}
vector<Item> gen_items(bool small) {
  vector<Item> v; GenOpt go; u32 n = range(W, 1, 6);
  for (u32 i = 0; i < n; i++) {
    Item it; it.rec = chance(W, 3, 4);
    if (it.rec) { it.t = small || chance(W, 1, 3) ? gen_small() : chance(W, 1, 10) ? Tree() : gen_tree(go); it.size = 24 + tpacked(it.t); }
    else { it.raw = garbage(chance(W, 1, 3) ? 1 + pick(W, 30) : 1 + pick(W, small ? 200 : 5000), pick(W, 1000)); it.size = it.raw.size(); }
    v.push_back(it);
  }
  return v;
}
bool TRANS;                          // only transient trouble (part of C05)
FaultPlan* some_plan(bool* hard) {
  if (TRANS) { *hard = false; return transient_plan(); }
  u32 k = pickw(W, {2, 4, 3}); *hard = k == 2;
  return k == 0 ? nullptr : k == 1 ? transient_plan() : gen_plan(HARD | SOFT, true);
}
string in_range(const string& a, const string& b, u64 lo, u64 hi) {   // do a and b agree outside [lo, hi)?
  for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
    if (i >= lo && i < hi) continue;
    int x = i < a.size() ? (uint8_t)a[i] : -1, y = i < b.size() ? (uint8_t)b[i] : -1;
    if (i < lo && x < 0 && y == 0) continue;               // a hole before the record
    if (x != y) return sfmt("byte %zu changed from %d to %d", i, x, y);
  }
  return "";
}
u64 nrec, nfail;
int flags_of(int fd) { auto it = CUR->proc->fds.find(fd); return it == CUR->proc->fds.end() ? -1 : it->second->flags; }
void flags_kept(int fd, int f0, const char* what) { int f = flags_of(fd); if (f != f0) violation("stream", sfmt("%s changed the flags of the descriptor from %x to %x", what, f0, f)); }
void one_write(int fd, const string& path, const Item& it, bool hard, string& img) {
  Proc* p = CUR->proc; Ofd& o = *p->fds[fd]; FaultPlan* keep = p->plan;
  for (int attempt = 0;; attempt++) {
    u64 pos = (o.flags & O_APPEND) ? img.size() : o.off;
    if (!it.rec) { FaultPlan* pl = p->plan; p->plan = nullptr; bool ok = app_write(fd, it.raw); p->plan = pl; if (!ok) harness_error("app write"); }
    ssize_t r = (ssize_t)it.size; u64 f = fired_now(); bool full = FS.capacity != ~0ull;
    if (it.rec) { kvtree* h = to_lib(it.t); op_begin(); int f0 = flags_of(fd); r = CALL(kvtree_write_fd, path.c_str(), fd, h); flags_kept(fd, f0, "kvtree_write_fd"); if (from_lib(h) != it.t) violation("stream", "kvtree_write_fd changed the tree"); del_lib(h); note(sfmt("write_fd at %llu: %zd", (unsigned long long)pos, r)); }
    string now = bytes_of(path); string d = in_range(img, now, pos, pos + it.size);
    if (!d.empty()) violation("stream", sfmt("writing a record of %llu bytes at offset %llu disturbed the rest of the file: ", (unsigned long long)it.size, (unsigned long long)pos) + d);
    if (r < 0) {
      nfail++;
      if (!full && (!hard || fired_now() == f)) violation("stream", sfmt("kvtree_write_fd fails at offset %llu, although nothing but transient trouble occurred", (unsigned long long)pos));
      if (attempt) harness_error("second attempt fails");
      img = now; p->plan = nullptr; FS.capacity = ~0ull;       // the application goes back and writes it again
      if (o.flags & O_APPEND) { fs_ino(fs_norm(p, path))->data.resize(pos); img.resize(pos); } else o.off = pos;
      continue;
    }
    if ((u64)r != it.size) violation("stream", sfmt("kvtree_write_fd returned %zd for a record of %llu bytes", r, (unsigned long long)it.size));
    if (o.off != pos + it.size) violation("stream", sfmt("after writing a record of %llu bytes at %llu the descriptor stands at %llu", (unsigned long long)it.size, (unsigned long long)pos, (unsigned long long)o.off));
    if (it.rec) { Dec dc = dec_file(now.substr(pos, it.size)); if (!dc.ok || dc.t != it.t) violation("stream", sfmt("kvtree_write_fd reported success, but the %llu bytes at offset %llu are not the record: ", (unsigned long long)it.size, (unsigned long long)pos) + (dc.ok ? tdiff(it.t, dc.t) : dc.why)); nrec++; }
    img = now; break;
  }
  p->plan = keep;
}
// returns false if the stream cannot be followed any further; eof_ok: the data may end here
ssize_t one_read(int fd, const string& path, const Item& it, bool* bad) {
  Tree pre = chance(W, 1, 3) ? gen_small() : Tree();
  kvtree* h = to_lib(pre); op_begin(); int f0 = flags_of(fd); ssize_t r = CALL(kvtree_read_fd, path.c_str(), fd, h); flags_kept(fd, f0, "kvtree_read_fd"); Tree got = from_lib(h); del_lib(h);
  note(sfmt("read_fd: %zd", r)); *bad = false;
  Tree want = r > 0 ? tunion(pre, it.t) : pre;
  if (got != want) violation("stream", r > 0 ? "kvtree_read_fd delivered another tree than the record it stood at: " + tdiff(want, got) : sfmt("kvtree_read_fd returned %zd but changed the tree: ", r) + tdiff(want, got));
  if (r > 0 && (u64)r != it.size) violation("stream", sfmt("kvtree_read_fd returned %zd for a record of %llu bytes", r, (unsigned long long)it.size));
  if (r > 0) nrec++; else if (r < 0) nfail++;
  return r;
}
void file_stream() {
  string path = pick_prefix(); string img; if (chance(W, 2, 3)) img = garbage(pick(W, 6000), pick(W, 1000));
  fs_put(fs_norm(nullptr, path), img);
  u64 start = pick(W, (u32)img.size() + 1); if (chance(W, 1, 3)) start = img.size(); if (chance(W, 1, 8)) start += pick(W, 3000);
  bool append = chance(W, 1, 4); if (append) start = img.size();
  vector<Item> items = gen_items(false); bool wh, rh; FaultPlan* wp = some_plan(&wh);
  if (!TRANS && chance(W, 1, 10)) { FS.capacity = img.size() + pick(W, 4000); for (auto& it : items) if (!it.rec) FS.capacity = ~0ull; }
  in_proc("writer", [&]() {
    string n = fs_norm(CUR->proc, path); int fd = fs_app_open(CUR->proc, n); CUR->proc->appfds.erase(fd);
    Ofd& o = *CUR->proc->fds[fd]; if (append) o.flags |= O_APPEND; else o.off = start;
    for (Item& it : items) one_write(fd, path, it, wh, img);
    if (o.ino->data.size() != img.size()) harness_error("size");
    app_close(fd);
  }, wp);
  check_exits(); FS.capacity = ~0ull;
  FaultPlan* rp = some_plan(&rh);
  in_proc("reader", [&]() {
    Proc* p = CUR->proc; string n = fs_norm(p, path); int fd = fs_app_open(p, n); p->appfds.erase(fd);
    Ofd& o = *p->fds[fd]; o.off = start; u64 pos = start;
    for (Item& it : items) {
      if (!it.rec) { string s; if (!app_read(fd, it.raw.size(), s) || s != it.raw) violation("stream", sfmt("the application's %zu bytes at offset %llu do not follow the record before them", it.raw.size(), (unsigned long long)pos)); }
      else for (int attempt = 0;; attempt++) {
        u64 f = fired_now(); bool bad; ssize_t r = one_read(fd, path, it, &bad);
        if (r > 0) { if (o.off != pos + it.size) violation("stream", sfmt("after reading a record of %llu bytes at %llu the descriptor stands at %llu", (unsigned long long)it.size, (unsigned long long)pos, (unsigned long long)o.off)); break; }
        if (attempt || !rh || fired_now() == f || r == 0) violation("stream", sfmt("kvtree_read_fd returned %zd at the record at offset %llu of %s although nothing but transient trouble occurred", r, (unsigned long long)pos, path.c_str()));
        o.off = pos; p->plan = nullptr;
      }
      pos += it.size;
    }
    if (pos == o.ino->data.size()) { p->plan = nullptr; Item none; none.rec = true; bool bad; ssize_t r = one_read(fd, path, none, &bad); if (r != 0) violation("stream", sfmt("kvtree_read_fd returned %zd at the end of the file", r)); COUNT("probe.end_of_data"); }
    string now = bytes_of(path); if (now != img) violation("stream", "reading changed the file");
    app_close(fd);
  }, rp);
  check_exits();
  NONTRIV = nrec > 0 && items.size() > 1;
  SAMPLE = sfmt("file of %zu bytes, %zu items from offset %llu%s, %llu records written and read, %llu failures", img.size(), items.size(), (unsigned long long)start, append ? " (append)" : "", (unsigned long long)nrec, (unsigned long long)nfail);
}
void pipe_stream() {
  static const u64 caps[] = {1, 7, 64, 512, 4096, 65536}; u32 ci = pick(W, 6); u64 cap = caps[ci];
  vector<Item> items = gen_items(ci < 2); bool wh, rh, nbw = chance(W, 1, 2), nbr = chance(W, 1, 2);
  Proc* pw = new_proc("writer"); Proc* pr = new_proc("reader"); pw->plan = some_plan(&wh); pr->plan = some_plan(&rh);
  u32 killer = TRANS ? 0 : pickw(W, {4, 1, 1});
  if (killer) { Proc* p = killer == 1 ? pw : pr; if (!p->plan) p->plan = gen_plan(SOFT, false); p->plan->mask |= M(FK_KILL); p->plan->killrate = 200; }
  int wfd, rfd; fs_pipe(pw, pr, cap, nbw, nbr, &wfd, &rfd);
  size_t sent = 0, got = 0; bool wfail = false, rfail = false, wdone = false; 
  spawn(pw, [&]() {
    for (Item& it : items) {
      if (!it.rec) { if (!app_write(wfd, it.raw)) { if (pr->alive && !rfail) violation("stream", "the application's data could not be written into the pipe"); wfail = true; break; } sent++; continue; }
      u64 f = fired_now(); kvtree* h = to_lib(it.t); op_begin(); int f0 = flags_of(wfd); ssize_t r = CALL(kvtree_write_fd, "pipe", wfd, h); flags_kept(wfd, f0, "kvtree_write_fd"); del_lib(h); note(sfmt("write_fd: %zd", r));
      if (r < 0) { nfail++; if ((TRANS || fired_now() == f) && pr->alive && !rfail) violation("stream", "kvtree_write_fd into a pipe fails, although nothing but transient trouble occurred"); wfail = true; break; }
      if ((u64)r != it.size) violation("stream", sfmt("kvtree_write_fd returned %zd for a record of %llu bytes", r, (unsigned long long)it.size));
      sent++;
    }
    wdone = true; app_close(wfd);
  });
  spawn(pr, [&]() {
    auto gone = [&]() { return wfail || !pw->alive || pw->killed; };
    for (size_t i = 0; i <= items.size(); i++) {
      Item none; none.rec = true; Item& it = i < items.size() ? items[i] : none;
      if (!it.rec) {
        string s; bool ok = app_read(rfd, it.raw.size(), s);
        if (s != it.raw.substr(0, s.size())) violation("stream", "the application's data does not follow the record before it in the pipe");
        if (!ok) { if (!gone() || sent > i) violation("stream", sfmt("the pipe ends after %zu of %zu items", i, sent)); break; }
        got++; continue;
      }
      u64 f = fired_now(); bool bad; ssize_t r = one_read(rfd, "pipe", it, &bad);
      if (i == items.size()) { if (r != 0 && (TRANS || fired_now() == f)) violation("stream", sfmt("kvtree_read_fd returned %zd at the end of the pipe", r)); COUNT("probe.end_of_data"); break; }
      if (r > 0) { got++; continue; }
      if ((TRANS || fired_now() == f) && (sent > i || !gone())) violation("stream", sfmt("kvtree_read_fd returned %zd for item %zu of the pipe, although nothing but transient trouble occurred (%zu items were sent)", r, i, sent));
      if (r == 0 && sent > i) violation("stream", sfmt("kvtree_read_fd returned 0 for item %zu of the pipe, of which %zu were sent", i, sent));
      break;
    }
    if (got < items.size()) rfail = true;
    app_close(rfd);
  });
  run_all("records through a pipe"); check_exits(); (void)wdone;
  if (killer) COUNT("probe.pipe_with_kills");
  NONTRIV = nrec > 0; SAMPLE = sfmt("pipe of %llu bytes%s%s, %zu items, %zu sent, %zu received, %llu failures", (unsigned long long)cap, nbw ? ", writer does not block" : "", nbr ? ", reader does not block" : "", items.size(), sent, got, (unsigned long long)nfail);
}
}
void run_c05_stream() { base_setup(); TRANS = true; nrec = nfail = 0; if (chance(W, 2, 3)) file_stream(); else pipe_stream(); }
void run_c24() { base_setup(); TRANS = false; nrec = nfail = 0; if (chance(W, 1, 2)) file_stream(); else pipe_stream(); }
