#include "fs.h"
#include "mpisim.h"
#include <fcntl.h>
#include <errno.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <dirent.h>
#include <regex.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>

Fs FS;
const char* FKNAME[FK_N] = {"eintr", "eagain", "short_transfer", "eio_rw", "zero_write", "enospc", "open_error", "access_error",
  "fsync_error", "close_error", "ftruncate_error", "lock_error", "lock_eintr", "unlock_error", "lseek_error", "opendir_error",
  "readdir_error", "stall", "kill", "power_failure"};
const char* SYNAME[SY_N] = {"open", "read", "write", "lseek", "ftruncate", "fsync", "close", "flock", "fcntl", "access", "opendir", "readdir", "other"};

void mtx_reset(); void more_reset();
void fs_reset() { mtx_reset(); FS = Fs(); FD0_FREE = false; fs_mkdir("/"); fs_mkdir("/w"); }
void fs_mkdir(const string& d) {
  auto i = std::make_shared<Inode>(); i->id = FS.next_ino++; i->dir = true; i->mode = 0755;
  FS.names[d] = i; FS.dnames[d] = i;
}
string fs_norm(const Proc* p, const string& path) {
  string s = path;
  if (s.empty()) return "";
  if (s[0] != '/') s = (p ? p->cwd : string("/w")) + "/" + s;
  vector<string> c; size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i); if (j == string::npos) j = s.size();
    string t = s.substr(i, j - i);
    if (t == "..") { if (!c.empty()) c.pop_back(); } else if (!t.empty() && t != ".") c.push_back(t);
    i = j + 1;
  }
  string r; for (auto& x : c) r += "/" + x;
  return r.empty() ? "/" : r;
}
// a path or a name in it is longer than the system allows
static bool too_long(const char* path) {
  if (!path) return false; size_t l = 0, c = 0;
  for (; path[l]; l++) { c = path[l] == '/' ? 0 : c + 1; if (c > 255 || l >= 4095) { errno = ENAMETOOLONG; return true; } }
  return false;
}
static string dirof(const string& p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
bool fs_exists(const string& p) { return FS.names.count(p); }
std::shared_ptr<Inode> fs_ino(const string& p) { auto it = FS.names.find(p); return it == FS.names.end() ? nullptr : it->second; }
void Inode::touch() { mtime = NOW / 4000 * 4000; }
void fs_put(const string& p, const string& b, mode_t mode) {
  auto i = std::make_shared<Inode>(); i->id = FS.next_ino++; i->mode = mode; i->touch();
  i->data.assign(b.begin(), b.end()); i->ddata = i->data;
  FS.names[p] = i; FS.dnames[p] = i;
}
bool fs_get(const string& p, string& b) { auto i = fs_ino(p); if (!i || i->dir) return false; b.assign(i->data.begin(), i->data.end()); return true; }
bool fs_get_durable(const string& p, string& b) {
  auto it = FS.dnames.find(p); if (it == FS.dnames.end()) return false;
  b.assign(it->second->ddata.begin(), it->second->ddata.end()); return true;
}
void fs_rm(const string& p) { FS.names.erase(p); FS.dnames.erase(p); }
vector<string> fs_list(const string& pre) {
  vector<string> r;
  for (auto& kv : FS.names) if (!kv.second->dir && kv.first.compare(0, pre.size(), pre) == 0) r.push_back(kv.first);
  return r;
}
static u64 used_bytes() { u64 n = 0; for (auto& kv : FS.names) n += kv.second->data.size(); return n; }

// ---------------------------------------------------------------- descriptors
Ofd::~Ofd() {
  if (ino) { if (ino->flock_ex == id) ino->flock_ex = -1; ino->flock_sh.erase(id); }
}
void fs_new_proc(Proc* p) { p->env.clear(); }
void fs_proc_gone(Proc* p) {
  // explicitly: the stack of a killed fiber may still refer to the descriptor
  for (auto& k : p->fds) { Ofd& o = *k.second; if (o.ino->flock_ex == o.id) o.ino->flock_ex = -1; o.ino->flock_sh.erase(o.id); }
  p->fds.clear(); p->appfds.clear();
  for (auto& kv : FS.names) { auto& i = *kv.second; if (i.plk_ex == p->id) i.plk_ex = -1; i.plk_sh.erase(p->id); }
}
bool FD0_FREE = false;              // the application closed its standard input
static int lowest_fd(Proc* p) { if (FD0_FREE && !p->fds.count(0)) return 0; int fd = 3; while (p->fds.count(fd)) fd++; return fd; }
int fs_app_open(Proc* p, const string& path) {
  auto i = fs_ino(path); if (!i) harness_error("app open");
  auto o = std::make_shared<Ofd>(); o->id = FS.next_ofd++; o->ino = i; o->flags = O_RDWR; o->path = path; o->app = true;
  int fd = lowest_fd(p);
  p->fds[fd] = o; p->appfds.insert(fd);
  return fd;
}
void fs_pipe(Proc* from, Proc* to, u64 cap, bool nbf, bool nbt, int* wfd, int* rfd) {
  auto i = std::make_shared<Inode>(); i->id = FS.next_ino++; i->mode = 0600; i->pipe_cap = cap;
  for (int e = 0; e < 2; e++) {
    Proc* p = e ? to : from; auto o = std::make_shared<Ofd>(); o->id = FS.next_ofd++; o->ino = i; o->path = "pipe"; o->app = true;
    o->flags = (e ? O_RDONLY : O_WRONLY) | ((e ? nbt : nbf) ? O_NONBLOCK : 0);
    int fd = lowest_fd(p); p->fds[fd] = o; *(e ? rfd : wfd) = fd;
  }
}
static bool pipe_end(Inode* i, int acc) {   // does anybody hold that end?
  for (Proc* p : all_procs()) for (auto& k : p->fds) if (k.second->ino.get() == i && (k.second->flags & O_ACCMODE) == acc) return true;
  return false;
}
static void spin() { static const u32 t[] = {0, 20, 3000}; u32 k = pick(D, 3); if (t[k]) sleep_us(t[k]); }   // a process that keeps trying
static ssize_t pipe_read(Ofd& o, int fd, void* buf, size_t n) {
  auto i = o.ino; auto& d = i->data;
  if (d.empty() && n && pipe_end(i.get(), O_WRONLY)) {
    COUNT("probe.pipe_empty");
    if (o.flags & O_NONBLOCK) { spin(); ev("read", fd, n, -EAGAIN); errno = EAGAIN; return -1; }
    block_until("pipe", [&]() { return !i->data.empty() || !pipe_end(i.get(), O_WRONLY); });
  }
  size_t m = std::min(n, d.size());
  if (m) { heap_range(buf, m, "read() into"); memcpy(buf, d.data(), m); d.erase(d.begin(), d.begin() + (long)m); }
  ev("read", fd, n, m); return (ssize_t)m;
}
static ssize_t pipe_write(Ofd& o, int fd, const void* buf, size_t n) {
  auto i = o.ino; auto& d = i->data; size_t done = 0;
  while (done < n) {
    if (!pipe_end(i.get(), O_RDONLY)) { if (done) break; ev("write", fd, n, -EPIPE); errno = EPIPE; return -1; }
    size_t room = i->pipe_cap - std::min<u64>(i->pipe_cap, d.size());
    if (!room) {
      COUNT("probe.pipe_full");
      if (o.flags & O_NONBLOCK) { if (done) break; spin(); ev("write", fd, n, -EAGAIN); errno = EAGAIN; return -1; }
      block_until("pipe", [&]() { return i->data.size() < i->pipe_cap || !pipe_end(i.get(), O_RDONLY); });
      continue;
    }
    size_t m = std::min(room, n - done); d.insert(d.end(), (const uint8_t*)buf + done, (const uint8_t*)buf + done + m); done += m;
    if ((o.flags & O_NONBLOCK)) break;
  }
  ev("write", fd, n, done); return (ssize_t)done;
}
bool fs_any_lock(string* who) {
  for (auto& kv : FS.names) {
    auto& i = *kv.second;
    if (i.flock_ex >= 0 || !i.flock_sh.empty() || i.plk_ex >= 0 || !i.plk_sh.empty()) { if (who) *who = kv.first; return true; }
  }
  return false;
}

// ---------------------------------------------------------------- durability
static void dapply(vector<uint8_t>& d, const Pend& p) {
  if (p.trunc) { d.resize(p.off, 0); return; }
  if (d.size() < p.off + p.data.size()) d.resize(p.off + p.data.size(), 0);
  memcpy(d.data() + p.off, p.data.data(), p.data.size());
}
// After a failed fsync the dirty pages count as clean: what was only written before it may never reach the disk,
// page by page, unless a later write dirties the page again.
static void do_fsync(Inode& i) {
  if (i.dir) {                      // the names in it
    string d; for (auto& kv : FS.names) if (kv.second.get() == &i) d = kv.first;
    if (d.empty()) return;
    for (auto it = FS.dnames.begin(); it != FS.dnames.end();) { if (it->first != "/" && dirof(it->first) == d && !FS.names.count(it->first)) it = FS.dnames.erase(it); else ++it; }
    for (auto& kv : FS.names) if (kv.first != "/" && dirof(kv.first) == d) FS.dnames[kv.first] = kv.second;
    return;
  }
  if (!i.fsync_failed) { i.ddata = i.data; i.pend.clear(); }
  else {
    auto old = i.ddata;
    u64 n = i.data.size(), pages = (n + 4095) / 4096;
    vector<char> zomb(pages, 0), live(pages, 0);
    for (auto& p : i.pend) {
      u64 lo = p.off, hi = p.trunc ? p.off + 1 : p.off + p.data.size();
      for (u64 g = lo / 4096; g < pages && g * 4096 < hi; g++) (p.zombie ? zomb : live)[g] = 1;
    }
    i.ddata = i.data;
    for (u64 g = 0; g < pages; g++) if (zomb[g] && !live[g] && chance(F, 1, 2))
      for (u64 o = g * 4096; o < n && o < (g + 1) * 4096; o++) i.ddata[o] = o < old.size() ? old[o] : 0;
    i.pend.clear();
  }
  for (auto it = FS.dnames.begin(); it != FS.dnames.end();) {     // a name that no longer points here
    if (it->second.get() == &i) { auto v = FS.names.find(it->first); if (v == FS.names.end() || v->second.get() != &i) { it = FS.dnames.erase(it); continue; } }
    ++it;
  }
  for (auto& kv : FS.names) if (kv.second.get() == &i) FS.dnames[kv.first] = kv.second;
}
static void sync_failed(Inode& i) { for (auto& p : i.pend) p.zombie = true; i.fsync_failed = true; }

void fs_power_fail() {
  COUNT("fault.power_failure");
  ev("POWER-FAIL", 0, 0, 0);
  for (Proc* p : all_procs()) if (p->alive) kill_proc(p, "power");
  u32 mode = pickw(F, {2, 2, 2, 6});
  // directory entries not yet durable
  map<string, std::shared_ptr<Inode>> nd;
  set<string> all;
  for (auto& kv : FS.names) all.insert(kv.first);
  for (auto& kv : FS.dnames) all.insert(kv.first);
  for (auto& n : all) {
    auto a = FS.names.find(n), b = FS.dnames.find(n);
    bool v = a != FS.names.end(), d = b != FS.dnames.end();
    if (v && d && a->second == b->second) { nd[n] = a->second; continue; }
    bool take_new = mode == 1 ? true : mode == 0 ? false : chance(F, 1, 2);
    if (take_new) { if (v) nd[n] = a->second; } else if (d) nd[n] = b->second;
  }
  set<Inode*> done;
  for (auto& kv : nd) {
    Inode& i = *kv.second;
    if (i.dir || !done.insert(&i).second) continue;
    if (!i.pend.empty()) {
      COUNT("probe.power_failure_with_unsynced_data");
      u64 vis = i.data.size();
      size_t np = i.pend.size();
      if (mode == 1 || mode == 2) {
        size_t upto = mode == 2 ? pick(F, (u32)np + 1) : np;
        for (size_t k = 0; k < upto; k++) dapply(i.ddata, i.pend[k]);
        if (chance(F, 1, 4)) i.ddata.resize(vis, 0);     // size reached the disk before the data
      } else if (mode == 3) {
        // every sector holds what it held at some moment since the last sync; so does the size
        vector<u64> size(np + 1); size[0] = i.ddata.size(); u64 mx = size[0];
        for (size_t k = 0; k < np; k++) { Pend& p = i.pend[k]; size[k + 1] = p.trunc ? p.off : std::max<u64>(size[k], p.off + p.data.size()); mx = std::max(mx, size[k + 1]); }
        u64 fin = size[np - pick(F, (u32)np + 1)];
        vector<uint8_t> out(fin, 0);
        for (u64 o = 0; o < fin; o += 512) {
          u64 e = std::min<u64>(fin, o + 512);
          bool any = false;
          for (auto& p : i.pend) if (p.trunc ? p.off < e : (p.off < e && p.off + p.data.size() > o)) any = true;
          size_t k_s = !any ? 0 : chance(F, 1, 2) ? np : chance(F, 1, 2) ? 0 : pick(F, (u32)np + 1);
          for (u64 x = o; x < e && x < i.ddata.size(); x++) out[x] = i.ddata[x];
          for (size_t k = 0; k < k_s; k++) {
            Pend& p = i.pend[k];
            if (p.trunc) { for (u64 x = std::max(o, p.off); x < e; x++) out[x] = 0; continue; }
            u64 lo = std::max(o, p.off), hi = std::min<u64>(e, p.off + p.data.size());
            for (u64 x = lo; x < hi; x++) out[x] = p.data[x - p.off];
          }
        }
        i.ddata = out;
      }
      i.pend.clear();
    }
    i.fsync_failed = false;
    i.data = i.ddata;
    i.flock_ex = -1; i.flock_sh.clear(); i.plk_ex = -1; i.plk_sh.clear();
  }
  FS.names = nd; FS.dnames = nd;
  POWER_LOST = true;
}

// ---------------------------------------------------------------- fault decision
// returns the fault kind or -1
static FaultPlan* the_plan() { return CUR->plan ? CUR->plan : CUR->proc->plan; }
static string fault_path;
static bool plan_applies(FaultPlan* pl, const string& path) {
  fault_path = path;
  if (!pl || !pl->mask) return false;
  if (!pl->only_path.empty() && path.compare(0, pl->only_path.size(), pl->only_path)) return false;
  return true;
}
static int choose_fault(const vector<int>& opts) {
  FaultPlan* pl = the_plan();
  if (opts.empty() || (int)(pl->fired + pl->fired_soft) >= pl->budget) return -1;
  u32 rate = pl->rate, n = (u32)opts.size();
  u32 v = draw(F, n + 1, [=](Rng& r) -> u32 { return r.below(1000) < rate ? 1 + (u32)r.below(n) : 0; });
  return v == 0 ? -1 : opts[v - 1];
}
static void fired(FK k, bool hard) {
  FaultPlan* pl = the_plan();
  pl->fired_kind[k]++;
  if (hard) { pl->fired++; } else pl->fired_soft++;
  STATS.c[string("fault.") + FKNAME[k]]++;
  ev("fault", k, 0, 0);
  if (VERBOSE) TRACE_TEXT.push_back(string("                        injected fault: ") + FKNAME[k]);
}
static bool go_sticky(Sys s, int err) {
  FaultPlan* pl = the_plan();
  if (err == EINTR) return false;              // nobody is interrupted for ever
  if (pl->sticky && chance(F, 3, 4)) { if (pl->by_path) pl->sticky_path[s][fault_path] = err; else pl->sticky_err[s] = err; return true; }
  return false;
}

// scheduling point + kill + stall; every seam starts here
static void seam(const char* why, const string& path) {
  Fiber* f = CUR;
  if (!f) harness_error(string("seam outside a fiber: ") + why);
  int il = f->in_lib; f->in_lib = 0;
  yield_point(why);
  FaultPlan* pl = the_plan();
  if (FS.maxlat && chance(D, 1, 3)) { sleep_us(1 + pick(D, FS.maxlat)); }
  if (pl) {
    if (pl->has(FK_KILL) && pl->killrate && chance(F, pl->killrate, 10000)) {
      fired(FK_KILL, true);
      kill_proc(f->proc, "kill"); maybe_die(why);
    }
    if (pl->has(FK_POWER) && pl->killrate && chance(F, pl->killrate, 10000)) {
      fired(FK_POWER, true);
      Proc* p = f->proc; fs_power_fail(); (void)p; maybe_die(why);
    }
    if (pl->has(FK_STALL) && plan_applies(pl, path) && chance(F, pl->rate, 4000)) {
      fired(FK_STALL, false); sleep_us(1000 + pick(D, 100000));
    }
  }
  f->in_lib = il;
}
struct OutOfLib { Fiber* f; int il; OutOfLib() : f(CUR), il(CUR ? CUR->in_lib : 0) { if (f) { f->in_lib = 0; if (il) f->sys++; } } ~OutOfLib() { if (f) { f->in_lib = il; if (il) f->sys--; } } };

static void touch(const char* what, const string& path, int flags, int fd) {
  if (FS.audit) FS.touches.push_back(Touch{CUR->proc->id, CUR->op, what, path, flags, fd});
}
static std::shared_ptr<Ofd> getfd(int fd, const char* what) {
  Proc* p = CUR->proc;
  auto it = p->fds.find(fd);
  bool own = it != p->fds.end() && !p->appfds.count(fd);
  if (!own) {
    string m = sfmt("%s on descriptor %d, which %s", what, fd,
                    fd >= 0 && fd <= 2 && it == p->fds.end() ? "is a standard stream of the application" : it != p->fds.end() ? "belongs to the application" : "is not open");
    if (fd >= 0 && !FS.foreign++) FS.foreign_msg = m + " [in " + CUR->op + "]";
    touch(what, "", -1, fd);
    ev("foreign-fd", (u64)fd, 0, 0);
  }
  if (it == p->fds.end()) return nullptr;
  return it->second;
}

extern "C" {

int sim_open(const char* path, int flags, ...) {
  OutOfLib o;
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = (mode_t)va_arg(ap, int); va_end(ap); }
  Proc* p = CUR->proc;
  string n = fs_norm(p, path);
  seam("open", n);
  touch("open", n, flags, -1);
  FaultPlan* pl = the_plan();
  if (plan_applies(pl, n)) {
    if (int se = pl->stuck(SY_OPEN, n)) { fired(FK_OPEN, true); errno = se; ev("open", flags, 0, -errno); return -1; }
    if (pl->has(FK_OPEN) && pl->op_open < pl->max_open) {
      int k = choose_fault({FK_OPEN, FK_OPEN, FK_OPEN});
      if (k >= 0) {
        static const int es[] = {EIO, EMFILE, ENFILE, EINTR, EACCES, ENOMEM, ESTALE, ENOENT, EAGAIN, ETIMEDOUT, EBUSY, EROFS, EPERM};
        int e = es[pick(F, 13)];
        fired(FK_OPEN, true); pl->op_open++;
        go_sticky(SY_OPEN, e);
        errno = e; ev("open", flags, 0, -e); return -1;
      }
    }
    pl->op_open = 0;
  }
  if (n.empty()) { errno = ENOENT; return -1; }
  if (too_long(path)) { ev("open", flags, 0, -ENAMETOOLONG); errno = ENAMETOOLONG; return -1; }
  auto it = FS.names.find(n);
  std::shared_ptr<Inode> i;
  if (it == FS.names.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; ev("open", flags, 0, -ENOENT); return -1; }
    auto d = FS.names.find(dirof(n));
    if (d == FS.names.end() || !d->second->dir) { errno = ENOENT; ev("open", flags, 0, -ENOENT); return -1; }
    i = std::make_shared<Inode>(); i->id = FS.next_ino++; i->mode = mode & ~p->umask & 07777; i->touch();
    FS.names[n] = i;
  } else {
    i = it->second;
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; ev("open", flags, 0, -EEXIST); return -1; }
    if (i->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; ev("open", flags, 0, -EISDIR); return -1; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && !i->dir) {
      if (!i->data.empty()) { i->data.clear(); i->touch(); i->pend.push_back(Pend{true, 0, {}, false}); }
    }
  }
  auto of = std::make_shared<Ofd>(); of->id = FS.next_ofd++; of->ino = i; of->flags = flags; of->path = n; of->opener = p->id;
  int fd = lowest_fd(p);
  p->fds[fd] = of;
  ev("open", flags, i->id, fd);
  return fd;
}
int sim_open64(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = (mode_t)va_arg(ap, int); va_end(ap); }
  return sim_open(path, flags, mode);
}
int sim_creat(const char* path, mode_t m) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }

// common fault part of read and write: returns true if the call ends with *ret
static bool rw_fault(Sys s, const string& path, size_t& n, ssize_t* ret) {
  FaultPlan* pl = the_plan();
  if (!plan_applies(pl, path)) return false;
  if (int e = pl->stuck(s, path)) {
    if (e == -1) { fired(FK_ZERO_WRITE, true); *ret = 0; return true; }
    if (e == ENOSPC) fired(FK_ENOSPC, true); else fired(FK_EIO_RW, true);
    errno = e; *ret = -1; return true;
  }
  vector<int> o;
  if (pl->has(FK_EINTR)) o.push_back(FK_EINTR);
  if (pl->has(FK_EAGAIN)) o.push_back(FK_EAGAIN);
  if (pl->has(FK_SHORT) && n > 1) { o.push_back(FK_SHORT); o.push_back(FK_SHORT); }
  if (pl->has(FK_EIO_RW) && pl->op_rw < pl->max_rw) o.push_back(FK_EIO_RW);
  if (s == SY_WRITE && pl->has(FK_ENOSPC)) o.push_back(FK_ENOSPC);
  if (s == SY_WRITE && pl->has(FK_ZERO_WRITE)) o.push_back(FK_ZERO_WRITE);
  int k = choose_fault(o);
  switch (k) {
    case FK_EINTR: fired(FK_EINTR, false); errno = EINTR; *ret = -1; return true;
    case FK_EAGAIN: fired(FK_EAGAIN, false); errno = EAGAIN; *ret = -1; return true;
    case FK_SHORT: {
      u32 mode = pickw(F, {3, 2, 3});
      size_t m = mode == 0 ? 1 + pick(F, (u32)std::min<size_t>(n - 1, 40)) : mode == 1 ? 1 + pick(F, (u32)std::min<size_t>(n - 1, 1u << 30)) : n - 1 - pick(F, (u32)std::min<size_t>(n - 1, 16));
      if (m < 1) m = 1;
      if (m < n) { fired(FK_SHORT, false); n = m; }
      return false; }
    case FK_EIO_RW: {
      static const int es[] = {EIO, ENOMEM, EBUSY, ESTALE, ETIMEDOUT, EINVAL, EBADF, EDQUOT, EFBIG, EPERM};
      int e = es[pick(F, s == SY_READ ? 7 : 10)];
      fired(FK_EIO_RW, true); pl->op_rw++;
      go_sticky(s, e); errno = e; *ret = -1; return true; }
    case FK_ENOSPC: fired(FK_ENOSPC, true); pl->op_rw++; go_sticky(s, ENOSPC); errno = ENOSPC; *ret = -1; return true;
    case FK_ZERO_WRITE: fired(FK_ZERO_WRITE, true); pl->op_rw++; go_sticky(s, -1); *ret = 0; return true;
  }
  return false;
}
static ssize_t do_read(int fd, void* buf, size_t n, bool at, u64 off) {
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("read", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "read");
  if (!o || (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; ev("read", fd, n, -EBADF); return -1; }
  touch("read", o->path, o->flags, fd);
  if (o->ino->dir) { errno = EISDIR; ev("read", fd, n, -EISDIR); return -1; }
  ssize_t r;
  if (rw_fault(SY_READ, o->path, n, &r)) { int e = errno; ev("read", fd, n, -e); errno = e; return r; }
  if (o->ino->pipe_cap) { if (at) { errno = ESPIPE; return -1; } return pipe_read(*o, fd, buf, n); }
  u64 pos = at ? off : o->off;
  auto& d = o->ino->data;
  u64 m = pos >= d.size() ? 0 : std::min<u64>(n, d.size() - pos);
  if (m) { heap_range(buf, m, "read() into"); memcpy(buf, d.data() + pos, m); }
  if (!at) o->off += m;
  ev("read", fd, n, m);
  return (ssize_t)m;
}
static ssize_t do_write(int fd, const void* buf, size_t n, bool at, u64 off) {
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("write", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "write");
  if (!o) {
    if (fd == 1 && CUR->proc->out_cap >= 0) {
      Proc* p = CUR->proc; if (p->out_cap == 0 && n > 0) { p->out_err = true; errno = ENOSPC; COUNT("fault.stdout_full"); return -1; }
      size_t k = std::min<size_t>(n, (size_t)p->out_cap); p->out.append((const char*)buf, k); p->out_cap -= (long)k; return (ssize_t)k;
    }
    if (fd == 1 || fd == 2) { Proc* p = CUR->proc; (fd == 1 ? p->out : p->err).append((const char*)buf, std::min<size_t>(n, 4096)); return (ssize_t)n; }
    errno = EBADF; ev("write", fd, n, -EBADF); return -1;
  }
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; ev("write", fd, n, -EBADF); return -1; }
  touch("write", o->path, o->flags, fd);
  if (n > (512u << 20)) { errno = EFAULT; ev("write", fd, n, -EFAULT); errno = EFAULT; return -1; }   // no buffer of a run is that large
  if (n) heap_range(buf, n, "write() from");
  ssize_t r;
  if (rw_fault(SY_WRITE, o->path, n, &r)) { int e = errno; ev("write", fd, n, -e); errno = e; return r; }
  auto& ino = *o->ino;
  if (ino.pipe_cap) { if (at) { errno = ESPIPE; return -1; } return pipe_write(*o, fd, buf, n); }
  u64 pos = at ? off : (o->flags & O_APPEND) ? ino.data.size() : o->off;
  u64 m = n;
  if (FS.capacity != ~0ull) {
    u64 used = used_bytes();
    u64 grow = pos + m > ino.data.size() ? pos + m - ino.data.size() : 0;
    if (used + grow > FS.capacity) {
      u64 room = FS.capacity > used ? FS.capacity - used : 0;
      u64 can = room + (ino.data.size() > pos ? ino.data.size() - pos : 0);
      STATS.c["fault.disk_full"]++;
      if (CUR->proc->plan) CUR->proc->plan->fired++;
      if (can == 0) { errno = ENOSPC; ev("write", fd, n, -ENOSPC); errno = ENOSPC; return -1; }
      m = std::min(m, can);
    }
  }
  // a kill can strike in the middle of a write
  FaultPlan* pl = the_plan();
  bool die = false;
  if (pl && pl->has(FK_KILL) && pl->killrate && m > 1 && chance(F, pl->killrate, 10000)) { m = 1 + pick(F, (u32)m - 1); die = true; }
  Pend p; p.trunc = false; p.zombie = false; p.off = pos; p.data.assign((const uint8_t*)buf, (const uint8_t*)buf + m);
  dapply(ino.data, p);
  ino.touch(); ino.pend.push_back(std::move(p));
  if (!at) o->off = pos + m;
  ev("write", fd, hashstr(string((const char*)buf, m)), m);
  if (die) { fired(FK_KILL, true); COUNT("probe.killed_inside_write"); kill_proc(CUR->proc, "kill"); maybe_die("write"); }
  return (ssize_t)m;
}
ssize_t sim_read(int fd, void* buf, size_t n) { return do_read(fd, buf, n, false, 0); }
ssize_t sim_write(int fd, const void* buf, size_t n) { return do_write(fd, buf, n, false, 0); }
ssize_t sim_pread(int fd, void* buf, size_t n, off_t o) { return do_read(fd, buf, n, true, (u64)o); }
ssize_t sim_pwrite(int fd, const void* buf, size_t n, off_t o) { return do_write(fd, buf, n, true, (u64)o); }
struct sim_iovec { void* b; size_t n; };
ssize_t sim_writev(int fd, const struct sim_iovec* v, int c) {
  string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].b, v[i].n); return do_write(fd, s.data(), s.size(), false, 0);
}
ssize_t sim_readv(int fd, const struct sim_iovec* v, int c) {
  for (int i = 0; i < c; i++) if (v[i].n) return do_read(fd, v[i].b, v[i].n, false, 0);
  return 0;
}

static int simple_fault(Sys s, FK k, const string& path, std::initializer_list<int> errs) {
  FaultPlan* pl = the_plan();
  if (!plan_applies(pl, path)) return 0;
  if (int e = pl->stuck(s, path)) { fired(k, true); return e; }
  if (!pl->has(k)) return 0;
  if (choose_fault({(int)k}) < 0) return 0;
  vector<int> e(errs); int x = e[pick(F, (u32)e.size())];
  fired(k, true); go_sticky(s, x);
  return x;
}

off_t sim_lseek(int fd, off_t off, int whence) {
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("lseek", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "lseek");
  if (!o) { errno = EBADF; return -1; }
  if (o->ino->pipe_cap) { ev("lseek", fd, off, -ESPIPE); errno = ESPIPE; return -1; }
  if (int e = simple_fault(SY_LSEEK, FK_LSEEK, o->path, {EIO, EOVERFLOW, EINVAL, ESTALE})) { ev("lseek", fd, off, -e); errno = e; return -1; }
  long long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long long)o->off : (long long)o->ino->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->off = (u64)(base + off);
  ev("lseek", fd, off, o->off);
  return (off_t)o->off;
}
int sim_ftruncate(int fd, off_t len) {
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("ftruncate", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "ftruncate");
  if (!o) { errno = EBADF; return -1; }
  if ((o->flags & O_ACCMODE) == O_RDONLY || len < 0 || o->ino->pipe_cap) { errno = EINVAL; return -1; }
  touch("ftruncate", o->path, o->flags, fd);
  if (int e = simple_fault(SY_FTRUNC, FK_FTRUNC, o->path, {EIO, EINTR, EINVAL, EFBIG, EPERM, ESTALE, ENOSPC})) { ev("ftruncate", fd, len, -e); errno = e; return -1; }
  o->ino->data.resize((size_t)len, 0);
  o->ino->touch(); o->ino->pend.push_back(Pend{true, (u64)len, {}, false});
  ev("ftruncate", fd, len, 0);
  return 0;
}
int sim_truncate(const char* path, off_t len) {
  OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("truncate", n); touch("truncate", n, O_WRONLY, -1);
  auto i = fs_ino(n); if (!i) { errno = ENOENT; return -1; }
  i->data.resize((size_t)len, 0); i->touch(); i->pend.push_back(Pend{true, (u64)len, {}, false}); ev("truncate", len, 0, 0); return 0;
}
int sim_fsync(int fd) {
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("fsync", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "fsync");
  if (!o) { errno = EBADF; ev("fsync", fd, 0, -EBADF); errno = EBADF; return -1; }
  if (o->ino->pipe_cap) { ev("fsync", fd, 0, -EINVAL); errno = EINVAL; return -1; }
  if (int e = simple_fault(SY_FSYNC, FK_FSYNC, o->path, {EIO, ENOSPC, EDQUOT, EINTR, ESTALE, ETIMEDOUT})) { sync_failed(*o->ino); ev("fsync", fd, 0, -e); errno = e; return -1; }
  do_fsync(*o->ino);
  ev("fsync", fd, 0, 0);
  return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_syncfs(int fd) { return sim_fsync(fd); }
void sim_sync(void) { OutOfLib ol; seam("sync", ""); for (auto& kv : FS.names) do_fsync(*kv.second); }
static void release_posix(Proc* p, Inode& i) { if (i.plk_ex == p->id) i.plk_ex = -1; i.plk_sh.erase(p->id); }
int sim_close(int fd) {
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("close", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "close");
  if (!o) { errno = EBADF; ev("close", fd, 0, -EBADF); errno = EBADF; return -1; }
  int e = simple_fault(SY_CLOSE, FK_CLOSE, o->path, {EIO, EINTR, ENOSPC, EDQUOT, ESTALE});
  release_posix(CUR->proc, *o->ino);          // POSIX: closing any descriptor drops the process's locks
  if (e) sync_failed(*o->ino);
  CUR->proc->appfds.erase(fd);
  CUR->proc->fds.erase(fd);                   // the descriptor is gone even if close reports an error (Linux)
  ev("close", fd, 0, -e);
  if (e) { errno = e; return -1; }
  return 0;
}
int sim_dup(int fd) {
  OutOfLib ol; seam("dup", ""); auto o = getfd(fd, "dup"); if (!o) { errno = EBADF; return -1; }
  int n = 3; while (CUR->proc->fds.count(n)) n++; CUR->proc->fds[n] = o; return n;
}

// ---------------------------------------------------------------- locks
static bool flock_free(Inode& i, int id, bool ex) {
  if (i.flock_ex >= 0 && i.flock_ex != id) return false;
  if (ex) for (int x : i.flock_sh) if (x != id) return false;
  return true;
}
static bool plk_free(Inode& i, int id, bool ex) {
  if (i.plk_ex >= 0 && i.plk_ex != id) return false;
  if (ex) for (int x : i.plk_sh) if (x != id) return false;
  return true;
}
// does a reader wait although everybody who holds the lock is a reader too?
static void note_shared_wait(Inode* ino) {
  if (CUR->op != "kvtree_read_with_lock") return;
  int holders = 0; bool all = true; string who;
  for (Proc* p : all_procs()) {
    if (p == CUR->proc || !p->alive) continue;
    bool h = ino->plk_ex == p->id || ino->plk_sh.count(p->id);
    for (auto& k : p->fds) if (k.second->ino.get() == ino && (ino->flock_ex == k.second->id || ino->flock_sh.count(k.second->id))) h = true;
    if (!h) continue;
    holders++; who = p->name;
    bool reads = false; for (Fiber* f : p->fibers) if (f->op == "kvtree_read_with_lock") reads = true;
    if (!reads) all = false;
  }
  if (holders && all) { FS.shared_wait = true; FS.shared_wait_msg = sfmt("%s waits for the lock in kvtree_read_with_lock, which only %s holds, also in kvtree_read_with_lock", CUR->proc->name.c_str(), who.c_str()); }
}
static int lock_wait(Inode* ino, const std::function<bool()>& fre, const string& path) {
  FaultPlan* pl = the_plan();
  COUNT("probe.lock_contended");
  note_shared_wait(ino);
  if (plan_applies(pl, path) && pl->has(FK_LOCK_EINTR) && choose_fault({FK_LOCK_EINTR}) >= 0) {
    u64 until = NOW + 1 + pick(D, 2000); future_event(until);
    bool got = false;
    block_until("lock", [&]() { if (fre()) { got = true; return true; } return NOW >= until; });
    if (!got || !fre()) { fired(FK_LOCK_EINTR, true); return EINTR; }
    return 0;
  }
  while (!fre()) block_until("lock", fre);
  return 0;
}
int sim_flock(int fd, int op) {
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("flock", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "flock");
  if (!o) { errno = EBADF; ev("flock", fd, op, -EBADF); errno = EBADF; return -1; }
  touch("flock", o->path, o->flags, fd);
  std::shared_ptr<Inode> i = o->ino;
  int id = o->id;
  if ((op & ~LOCK_NB) == LOCK_UN) {
    if (int e = simple_fault(SY_FLOCK, FK_UNLOCK, o->path, {ENOLCK, EIO, ESTALE, EINTR})) { ev("flock", fd, op, -e); errno = e; return -1; }
    if (i->flock_ex == id) i->flock_ex = -1; i->flock_sh.erase(id);
    ev("flock", fd, op, 0);
    return 0;
  }
  bool ex = (op & ~LOCK_NB) == LOCK_EX;
  if (int e = simple_fault(SY_FLOCK, FK_LOCK, o->path, {ENOLCK, EINTR, EIO, EINVAL, EOPNOTSUPP, ENOSYS, ESTALE})) { ev("flock", fd, op, -e); errno = e; return -1; }
  auto fre = [i, id, ex]() { return flock_free(*i, id, ex); };
  // converting drops the old lock first, and a waiting request may get its turn before the new one is there
  if (ex ? i->flock_sh.count(id) > 0 : i->flock_ex == id) {
    if (i->flock_ex == id) i->flock_ex = -1;
    i->flock_sh.erase(id);
    COUNT("probe.lock_converted");
    seam("flock", o->path);
  }
  if (!fre()) {
    if (op & LOCK_NB) { errno = EWOULDBLOCK; ev("flock", fd, op, -EWOULDBLOCK); errno = EWOULDBLOCK; return -1; }
    if (i->flock_ex == id) i->flock_ex = -1; i->flock_sh.erase(id);
    int e = lock_wait(i.get(), fre, o->path);
    if (e) { ev("flock", fd, op, -e); errno = e; return -1; }
  }
  i->flock_ex = i->flock_ex == id ? -1 : i->flock_ex; i->flock_sh.erase(id);
  if (ex) i->flock_ex = id; else { i->flock_sh.insert(id); if (i->flock_sh.size() > 1) COUNT("probe.two_shared_locks"); i->max_readers = std::max<u64>(i->max_readers, i->flock_sh.size()); }
  ev("flock", fd, op, 0);
  return 0;
}
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  OutOfLib ol;
  auto pre = CUR->proc->fds.find(fd);
  seam("fcntl", pre == CUR->proc->fds.end() ? "" : pre->second->path);
  auto o = getfd(fd, "fcntl");
  if (!o) { errno = EBADF; ev("fcntl", fd, cmd, -EBADF); errno = EBADF; return -1; }
  if (cmd == F_GETFD || cmd == F_SETFD) return 0;
  if (cmd == F_GETFL) return o->flags;
  if (cmd == F_SETFL) { int m = O_APPEND | O_NONBLOCK; o->flags = (o->flags & ~m) | ((int)(long)arg & m); return 0; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int n = std::max(3, (int)(long)arg); while (CUR->proc->fds.count(n)) n++; CUR->proc->fds[n] = o; return n; }
  bool ofd_lock = cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW;
  if (cmd != F_SETLK && cmd != F_SETLKW && !ofd_lock) { errno = EINVAL; return -1; }
  touch("fcntl", o->path, o->flags, fd);
  struct flock* l = (struct flock*)arg;
  std::shared_ptr<Inode> i = o->ino;
  int id = CUR->proc->id;
  if (ofd_lock) {
    int fid = o->id;
    if (l->l_type == F_UNLCK) { if (i->flock_ex == fid) i->flock_ex = -1; i->flock_sh.erase(fid); ev("fcntl", fd, cmd, 0); return 0; }
    bool ex = l->l_type == F_WRLCK;
    auto fre = [i, fid, ex]() { return flock_free(*i, fid, ex); };
    if (!fre()) { if (cmd == F_OFD_SETLK) { errno = EAGAIN; return -1; } int e = lock_wait(i.get(), fre, o->path); if (e) { errno = e; return -1; } }
    if (ex) { i->flock_sh.erase(fid); i->flock_ex = fid; } else { if (i->flock_ex == fid) i->flock_ex = -1; i->flock_sh.insert(fid); }
    ev("fcntl", fd, cmd, 0); return 0;
  }
  if (l->l_type == F_UNLCK) {
    if (int e = simple_fault(SY_FCNTL, FK_UNLOCK, o->path, {ENOLCK, EIO, ESTALE, EINTR})) { ev("fcntl", fd, cmd, -e); errno = e; return -1; }
    release_posix(CUR->proc, *i);
    ev("fcntl", fd, cmd, 0);
    return 0;
  }
  bool ex = l->l_type == F_WRLCK;
  int acc = o->flags & O_ACCMODE;
  if ((ex && acc == O_RDONLY) || (!ex && acc == O_WRONLY)) { errno = EBADF; return -1; }
  if (int e = simple_fault(SY_FCNTL, FK_LOCK, o->path, {ENOLCK, EINTR, EIO, EDEADLK, EOPNOTSUPP, ENOSYS, ESTALE, EACCES})) { ev("fcntl", fd, cmd, -e); errno = e; return -1; }
  auto fre = [i, id, ex]() { return plk_free(*i, id, ex); };
  if (!fre()) {
    if (cmd == F_SETLK) { errno = EAGAIN; ev("fcntl", fd, cmd, -EAGAIN); errno = EAGAIN; return -1; }
    int e = lock_wait(i.get(), fre, o->path);
    if (e) { ev("fcntl", fd, cmd, -e); errno = e; return -1; }
  }
  if (ex) { i->plk_sh.erase(id); i->plk_ex = id; }
  else { if (i->plk_ex == id) i->plk_ex = -1; i->plk_sh.insert(id); if (i->plk_sh.size() > 1) COUNT("probe.two_shared_locks"); i->max_readers = std::max<u64>(i->max_readers, i->plk_sh.size()); }
  ev("fcntl", fd, cmd, ex);
  return 0;
}
int sim_lockf(int fd, int cmd, off_t len) {
  struct flock l; memset(&l, 0, sizeof l); l.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return sim_fcntl(fd, cmd == F_TLOCK ? F_SETLK : F_SETLKW, &l);
}

// ---------------------------------------------------------------- names
int sim_access(const char* path, int mode) {
  OutOfLib ol;
  string n = fs_norm(CUR->proc, path);
  seam("access", n); touch("access", n, O_RDONLY, -1);
  if (int e = simple_fault(SY_ACCESS, FK_ACCESS, n, {EIO, EACCES, ENOENT, ESTALE, ETIMEDOUT})) { ev("access", mode, 0, -e); errno = e; return -1; }
  auto i = fs_ino(n);
  if (!i) { errno = ENOENT; ev("access", mode, 0, -ENOENT); errno = ENOENT; return -1; }
  ev("access", mode, i->id, 0);
  return 0;
}
int sim_faccessat(int d, const char* path, int mode, int) { (void)d; return sim_access(path, mode); }
static void fill_stat(struct stat* st, Inode& i) {
  memset(st, 0, sizeof *st); st->st_ino = i.id; st->st_mode = (i.dir ? S_IFDIR : i.pipe_cap ? S_IFIFO : S_IFREG) | i.mode; st->st_size = i.pipe_cap ? 0 : (off_t)i.data.size(); st->st_nlink = 1; st->st_blksize = 4096;
  st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = (long)(1700000000 + i.mtime / 1000000); st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = (long)(i.mtime % 1000000) * 1000; st->st_blocks = (long)((st->st_size + 511) / 512); st->st_dev = 1;
 
}
int sim_stat(const char* path, struct stat* st) {
  OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("stat", n); touch("stat", n, O_RDONLY, -1);
  auto i = fs_ino(n); if (!i) { errno = ENOENT; ev("stat", 0, 0, -ENOENT); errno = ENOENT; return -1; }
  fill_stat(st, *i); ev("stat", i->id, 0, 0); return 0;
}
int sim_lstat(const char* p, struct stat* s) { return sim_stat(p, s); }
int sim_fstat(int fd, struct stat* st) {
  OutOfLib ol; seam("fstat", ""); auto o = getfd(fd, "fstat"); if (!o) { errno = EBADF; return -1; }
  fill_stat(st, *o->ino); ev("fstat", fd, 0, 0); return 0;
}
int sim_unlink(const char* path) {
  OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("unlink", n); touch("unlink", n, O_WRONLY, -1);
  auto it = FS.names.find(n); if (it == FS.names.end()) { errno = ENOENT; ev("unlink", 0, 0, -ENOENT); errno = ENOENT; return -1; }
  FS.names.erase(it); ev("unlink", 0, 0, 0); return 0;
}
int sim_remove(const char* p) { return sim_unlink(p); }
int sim_rename(const char* a, const char* b) {
  OutOfLib ol; string x = fs_norm(CUR->proc, a), y = fs_norm(CUR->proc, b); seam("rename", y); touch("rename", x, O_WRONLY, -1); touch("rename", y, O_WRONLY, -1);
  auto it = FS.names.find(x); if (it == FS.names.end()) { errno = ENOENT; ev("rename", 0, 0, -ENOENT); errno = ENOENT; return -1; }
  auto i = it->second; FS.names.erase(it); FS.names[y] = i; ev("rename", i->id, 0, 0); return 0;
}
int sim_mkdir(const char* path, mode_t m) {
  OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("mkdir", n); touch("mkdir", n, O_WRONLY | O_CREAT, -1);
  if (FS.names.count(n)) { errno = EEXIST; return -1; }
  auto i = std::make_shared<Inode>(); i->id = FS.next_ino++; i->dir = true; i->mode = m; FS.names[n] = i; return 0;
}
int sim_chmod(const char* path, mode_t m) {
  OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("chmod", n); touch("chmod", n, O_WRONLY, -1); auto i = fs_ino(n); if (!i) { errno = ENOENT; return -1; } i->mode = m & 07777; return 0;
}
int sim_fchmod(int fd, mode_t m) { OutOfLib ol; seam("fchmod", ""); auto o = getfd(fd, "fchmod"); if (!o) { errno = EBADF; return -1; } o->ino->mode = m & 07777; return 0; }

// directories
void* sim_opendir(const char* path) {
  OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("opendir", n); touch("opendir", n, O_RDONLY, -1);
  if (int e = simple_fault(SY_OPENDIR, FK_OPENDIR, n, {EACCES, EMFILE, EIO, ENOENT, ESTALE})) { ev("opendir", 0, 0, -e); errno = e; return nullptr; }
  if (too_long(path)) { ev("opendir", 0, 0, -ENAMETOOLONG); errno = ENAMETOOLONG; return nullptr; }
  auto i = fs_ino(n); if (!i || !i->dir) { int e = i ? ENOTDIR : ENOENT; ev("opendir", 0, 0, -e); errno = e; return nullptr; }
  DirH* d = new DirH; d->path = n; d->pos = 0; d->open = true; d->fd = -1; d->ent = nullptr;
  string pre = n == "/" ? "/" : n + "/";
  d->names.push_back("."); d->names.push_back("..");
  for (auto& kv : FS.names) if (kv.first != "/" && kv.first.compare(0, pre.size(), pre) == 0 && kv.first.find('/', pre.size()) == string::npos) d->names.push_back(kv.first.substr(pre.size()));
  Rng r(FS.readdir_seed + 1);
  if (FS.readdir_seed) for (size_t k = d->names.size(); k > 1; k--) std::swap(d->names[k - 1], d->names[r.below(k)]);
  CUR->proc->dirs.push_back(d);
  ev("opendir", d->names.size(), 0, 1);
  return d;
}
static DirH* getdir(void* h) {
  for (DirH* d : CUR->proc->dirs) if (d == h && d->open) return d;
  violation("heap", "use of a directory handle that is not open");
}
struct dirent* sim_readdir(void* h) {
  OutOfLib ol; DirH* d = getdir(h); seam("readdir", d->path);
  if (int e = simple_fault(SY_READDIR, FK_READDIR, d->path, {EIO, EBADF})) { ev("readdir", 0, 0, -e); errno = e; return nullptr; }
  if (d->pos >= d->names.size()) { ev("readdir", 0, 0, 0); return nullptr; }
  if (!d->ent) d->ent = calloc(1, sizeof(struct dirent));
  struct dirent* e = (struct dirent*)d->ent; memset(e, 0, sizeof *e);
  const string& nm = d->names[d->pos++];
  snprintf(e->d_name, sizeof e->d_name, "%s", nm.c_str());
  e->d_ino = d->pos;
  auto i = fs_ino(fs_norm(nullptr, d->path + "/" + nm)); e->d_type = i && i->dir ? DT_DIR : DT_REG;
  ev("readdir", d->pos, 0, 1);
  return e;
}
int sim_closedir(void* h) {
  OutOfLib ol; DirH* d = getdir(h); d->open = false; free(d->ent); d->ent = nullptr; ev("closedir", 0, 0, 0);
  if (d->fd >= 0) { CUR->proc->fds.erase(d->fd); d->fd = -1; }
  return 0;
}
void sim_rewinddir(void* h) { getdir(h)->pos = 0; }

// ---------------------------------------------------------------- process
mode_t sim_umask(mode_t m) { Proc* p = CUR->proc; mode_t o = p->umask; p->umask = m & 0777; u32 others = 0; for (Fiber* f : p->fibers) if (f != CUR && f->st != DONE && f->st != DEAD) others++; if (others && p->umask != o) p->umask_bad++; ev("umask", m, 0, o); return o; }
int sim_usleep(unsigned us) { OutOfLib ol; COUNT("probe.usleep"); ev("usleep", us, 0, 0); sleep_us(us); return 0; }
unsigned sim_sleep(unsigned s) { OutOfLib ol; ev("sleep", s, 0, 0); sleep_us((u64)s * 1000000); return 0; }
int sim_nanosleep(const struct timespec* t, struct timespec*) { OutOfLib ol; sleep_us((u64)t->tv_sec * 1000000 + (u64)t->tv_nsec / 1000); return 0; }
int sim_sched_yield(void) { OutOfLib ol; yield_point("yield"); return 0; }
char* sim_getenv(const char* n) {
  Proc* p = CUR->proc; auto it = p->env.find(n); if (it == p->env.end()) return nullptr;
  return const_cast<char*>(it->second.c_str());
}
int sim_setenv(const char* n, const char* v, int o) { Proc* p = CUR->proc; if (o || !p->env.count(n)) p->env[n] = v; return 0; }
int sim_unsetenv(const char* n) { CUR->proc->env.erase(n); return 0; }
int sim_chdir(const char* d) { CUR->proc->cwd = fs_norm(CUR->proc, d); return 0; }
char* sim_getcwd(char* b, size_t n) { snprintf(b, n, "%s", CUR->proc->cwd.c_str()); return b; }
int sim_gethostname(char* b, size_t n) { snprintf(b, n, "node%d", CUR->proc->rank < 0 ? 0 : CUR->proc->rank % 4); return 0; }
pid_t sim_getpid(void) { return 1000 + CUR->proc->id; }
void sim_exit(int s) { CUR->in_lib = 0; out_flush(CUR->proc); proc_exit(s); }
void sim__exit(int s) { CUR->in_lib = 0; proc_exit(s); }
void sim_abort(void) { violation("crash", "the library called abort()"); }
void sim___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { violation("crash", sfmt("assertion failed: %s (%s)", e, fn)); }
int* sim_dummy_errno(void) { return &errno; }

int sim_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = (long)(1700000000 + NOW / 1000000); tv->tv_usec = (long)(NOW % 1000000); return 0; }
time_t sim_time(time_t* t) { time_t v = (time_t)(1700000000 + NOW / 1000000); if (t) *t = v; return v; }
int sim_clock_gettime(int, struct timespec* ts) { ts->tv_sec = (long)(1700000000 + NOW / 1000000); ts->tv_nsec = (long)(NOW % 1000000) * 1000; return 0; }

// ---------------------------------------------------------------- stdio
static string* cap(FILE* f) {
  if (f == stdout) return &CUR->proc->out;
  if (f == stderr) return &CUR->proc->err;
  return nullptr;
}
static void capadd(string* s, const char* b, size_t n) {
  if (s->size() < (8u << 20)) s->append(b, n);
  ev("print", hashstr(string(b, n)), n, 0);
}
// standard output with limited room is fully buffered, like a file
int out_flush(Proc* p) {
  if (p->out_cap < 0 || p->outbuf.empty()) return 0;
  size_t k = std::min<size_t>(p->outbuf.size(), (size_t)p->out_cap); p->out.append(p->outbuf, 0, k); p->out_cap -= (long)k;
  bool lost = k < p->outbuf.size(); p->outbuf.clear();
  if (!lost) return 0;
  p->out_err = true; errno = ENOSPC; COUNT("fault.stdout_full"); return EOF;
}
static int outadd(FILE* f, string* s, const char* b, size_t n) {
  Proc* p = CUR->proc;
  if (f != stdout || p->out_cap < 0) { capadd(s, b, n); return 0; }
  capadd(&p->outbuf, b, n);
  return p->outbuf.size() >= 4096 ? out_flush(p) : 0;
}
extern "C++" { static map<FILE*, int> filefd; }
int sim_ferror(FILE* f) { return cap(f) ? f == stdout && CUR->proc->out_err : ferror(f); }
void sim_clearerr(FILE* f) { if (f == stdout) CUR->proc->out_err = false; else if (!cap(f)) clearerr(f); }
int sim_fclose(FILE* f) { if (f == stdout) return out_flush(CUR->proc); if (cap(f)) return 0; filefd.erase(f); return fclose(f); }
int sim_vfprintf(FILE* f, const char* fmt, va_list ap) {
  string* s = cap(f);
  if (!s) return vfprintf(f, fmt, ap);
  va_list a2; va_copy(a2, ap);
  char b[512]; int n = vsnprintf(b, sizeof b, fmt, ap);
  int e;
  if (n < (int)sizeof b) e = outadd(f, s, b, n < 0 ? 0 : (size_t)n);
  else { vector<char> v((size_t)n + 1); vsnprintf(v.data(), v.size(), fmt, a2); e = outadd(f, s, v.data(), (size_t)n); }
  va_end(a2);
  return e ? -1 : n;
}
int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char* fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_puts(const char* t) { string l = string(t) + "\n"; return outadd(stdout, &CUR->proc->out, l.data(), l.size()) ? EOF : 1; }
int sim_putchar(int c) { char x = (char)c; return outadd(stdout, &CUR->proc->out, &x, 1) ? EOF : c; }
int sim_fputc(int c, FILE* f) { string* s = cap(f); if (!s) return fputc(c, f); char x = (char)c; return outadd(f, s, &x, 1) ? EOF : c; }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim_fputs(const char* t, FILE* f) { string* s = cap(f); if (!s) return fputs(t, f); return outadd(f, s, t, strlen(t)) ? EOF : 1; }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) { string* s = cap(f); if (!s) return fwrite(p, a, b, f); return outadd(f, s, (const char*)p, a * b) ? 0 : b; }
int sim_fflush(FILE* f) { if (!f || f == stdout) return out_flush(CUR->proc); if (cap(f)) return 0; return fflush(f); }
void sim_perror(const char* m) { int e = errno; string t = string(m) + ": " + strerror(e) + "\n"; capadd(&CUR->proc->err, t.data(), t.size()); }
// FILE* on simulated files
struct Cook { int fd; };
static ssize_t ck_read(void* c, char* b, size_t n) { return sim_read(((Cook*)c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = sim_write(((Cook*)c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) { off_t r = sim_lseek(((Cook*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { int r = sim_close(((Cook*)c)->fd); delete (Cook*)c; return r; }
FILE* sim_fdopen(int fd, const char* mode) {
  cookie_io_functions_t io; io.read = ck_read; io.write = ck_write; io.seek = ck_seek; io.close = ck_close;
  if (!CUR->proc->fds.count(fd)) { errno = EBADF; return nullptr; }
  Cook* c = new Cook{fd}; FILE* f = fopencookie(c, mode, io); if (f) filefd[f] = fd; return f;
}
FILE* sim_fopen(const char* path, const char* mode) {
  int fl = 0; bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = sim_open(path, fl, 0666); if (fd < 0) return nullptr;
  return sim_fdopen(fd, mode);
}

// ---------------------------------------------------------------- allocation
void* sim_malloc(size_t n) { return heap_malloc(n, false); }
void* sim_calloc(size_t a, size_t b) { if (b && a > (~(size_t)0) / b) { errno = ENOMEM; return nullptr; } return heap_malloc(a * b, true); }
void* sim_realloc(void* p, size_t n) { return heap_realloc(p, n); }
void sim_free(void* p) { int e = errno; heap_free(p); errno = e; }
void* sim_aligned_alloc(size_t, size_t n) { return heap_malloc(n, false); }
int sim_posix_memalign(void** p, size_t, size_t n) { *p = heap_malloc(n, false); return *p ? 0 : ENOMEM; }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)heap_malloc(n, false); if (r) memcpy(r, s, n); return r; }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* r = (char*)heap_malloc(n + 1, false); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
int sim_vasprintf(char** o, const char* f, va_list ap) {
  va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, ap); if (n < 0) return -1;
  char* b = (char*)heap_malloc((size_t)n + 1, false); if (!b) { *o = nullptr; return -1; }
  vsnprintf(b, (size_t)n + 1, f, a2); va_end(a2); *o = b; return n;
}
int sim_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(o, f, ap); va_end(ap); return n; }
// compiled regular expressions own memory of the C library: counted like descriptors
int sim_regcomp(regex_t* r, const char* p, int f) { int k = regcomp(r, p, f); if (k == 0) CUR->proc->regs.insert(r); return k; }
void sim_regfree(regex_t* r) { if (!CUR->proc->regs.erase(r)) violation("heap", "regfree of something that was not compiled"); regfree(r); }
char* sim_realpath(const char* p, char* o) { string n = fs_norm(CUR->proc, p); if (!o) o = (char*)heap_malloc(4096, false); if (o) snprintf(o, 4096, "%s", n.c_str()); return o; }

// ---------------------------------------------------------------- mutexes
static map<std::pair<int, void*>, int> mtx;      // (process, address) -> owner fiber id + 1
int sim_pthread_mutex_init(void*, const void*) { return 0; }
int sim_pthread_mutex_destroy(void*) { return 0; }
int sim_pthread_mutex_lock(void* m) {
  OutOfLib ol; yield_point("mutex");
  auto k = std::make_pair(CUR->proc->id, m);
  if (mtx[k]) block_until("mutex", [k]() { return mtx[k] == 0; });
  mtx[k] = CUR->id + 1; return 0;
}
int sim_pthread_mutex_trylock(void* m) { auto k = std::make_pair(CUR->proc->id, m); if (mtx[k]) return EBUSY; mtx[k] = CUR->id + 1; return 0; }
int sim_pthread_mutex_unlock(void* m) { OutOfLib ol; auto k = std::make_pair(CUR->proc->id, m); mtx[k] = 0; yield_point("mutex"); return 0; }
unsigned long sim_pthread_self(void) { return (unsigned long)CUR->id + 1; }

} // extern "C"
#include "fs_more.h"

u64 faults_fired(const vector<Proc*>& ps) { u64 n = 0; for (Proc* p : ps) if (p->plan) n += p->plan->fired; return n; }
void mtx_reset() { mtx.clear(); more_reset(); }

// other names of the same calls
asm(R"(
.globl sim__Exit
.set sim__Exit, sim__exit
.globl sim___open64_2
.set sim___open64_2, sim_open
.globl sim___open_2
.set sim___open_2, sim_open
.globl sim_fcntl64
.set sim_fcntl64, sim_fcntl
.globl sim_fopen64
.set sim_fopen64, sim_fopen
.globl sim_fstat64
.set sim_fstat64, sim_fstat
.globl sim_ftruncate64
.set sim_ftruncate64, sim_ftruncate
.globl sim_lockf64
.set sim_lockf64, sim_lockf
.globl sim_lseek64
.set sim_lseek64, sim_lseek
.globl sim_lstat64
.set sim_lstat64, sim_lstat
.globl sim_pread64
.set sim_pread64, sim_pread
.globl sim_pwrite64
.set sim_pwrite64, sim_pwrite
.globl sim_quick_exit
.set sim_quick_exit, sim_exit
.globl sim_readdir64
.set sim_readdir64, sim_readdir
.globl sim_stat64
.set sim_stat64, sim_stat
.globl sim_truncate64
.set sim_truncate64, sim_truncate
.globl sim__IO_putc
.set sim__IO_putc, sim_putc
.globl sim___getdelim
.set sim___getdelim, sim_getdelim
.globl sim___secure_getenv
.set sim___secure_getenv, sim_secure_getenv
.globl sim___strdup
.set sim___strdup, sim_strdup
.globl sim___strndup
.set sim___strndup, sim_strndup
.globl sim___sysv_signal
.set sim___sysv_signal, sim_signal
.globl sim_alphasort64
.set sim_alphasort64, sim_alphasort
.globl sim_clearerr_unlocked
.set sim_clearerr_unlocked, sim_clearerr
.globl sim_euidaccess
.set sim_euidaccess, sim_eaccess
.globl sim_execl
.set sim_execl, sim_exec
.globl sim_execlp
.set sim_execlp, sim_exec
.globl sim_execv
.set sim_execv, sim_exec
.globl sim_execve
.set sim_execve, sim_exec
.globl sim_execvp
.set sim_execvp, sim_exec
.globl sim_fallocate64
.set sim_fallocate64, sim_fallocate
.globl sim_ferror_unlocked
.set sim_ferror_unlocked, sim_ferror
.globl sim_fflush_unlocked
.set sim_fflush_unlocked, sim_fflush
.globl sim_fileno_unlocked
.set sim_fileno_unlocked, sim_fileno
.globl sim_fputc_unlocked
.set sim_fputc_unlocked, sim_fputc
.globl sim_fputs_unlocked
.set sim_fputs_unlocked, sim_fputs
.globl sim_fstatat64
.set sim_fstatat64, sim_fstatat
.globl sim_fstatfs64
.set sim_fstatfs64, sim_fstatfs
.globl sim_fstatvfs64
.set sim_fstatvfs64, sim_fstatvfs
.globl sim_fwrite_unlocked
.set sim_fwrite_unlocked, sim_fwrite
.globl sim_glob64
.set sim_glob64, sim_glob
.globl sim_globfree64
.set sim_globfree64, sim_globfree
.globl sim_lchown
.set sim_lchown, sim_chown
.globl sim_lutimes
.set sim_lutimes, sim_utimes
.globl sim_mkostemp64
.set sim_mkostemp64, sim_mkostemp
.globl sim_mkostemps64
.set sim_mkostemps64, sim_mkostemps
.globl sim_mkstemp64
.set sim_mkstemp64, sim_mkstemp
.globl sim_mkstemps64
.set sim_mkstemps64, sim_mkstemps
.globl sim_mmap64
.set sim_mmap64, sim_mmap
.globl sim_openat64
.set sim_openat64, sim_openat
.globl sim_posix_fadvise64
.set sim_posix_fadvise64, sim_posix_fadvise
.globl sim_posix_fallocate64
.set sim_posix_fallocate64, sim_posix_fallocate
.globl sim_posix_madvise
.set sim_posix_madvise, sim_madvise
.globl sim_posix_spawnp
.set sim_posix_spawnp, sim_posix_spawn
.globl sim_preadv64
.set sim_preadv64, sim_preadv
.globl sim_pthread_mutexattr_destroy
.set sim_pthread_mutexattr_destroy, sim_pthread_noop
.globl sim_pthread_mutexattr_init
.set sim_pthread_mutexattr_init, sim_pthread_noop
.globl sim_pthread_mutexattr_settype
.set sim_pthread_mutexattr_settype, sim_pthread_noop
.globl sim_pthread_rwlock_destroy
.set sim_pthread_rwlock_destroy, sim_pthread_noop
.globl sim_pthread_rwlock_init
.set sim_pthread_rwlock_init, sim_pthread_noop
.globl sim_pthread_spin_destroy
.set sim_pthread_spin_destroy, sim_pthread_noop
.globl sim_pthread_spin_init
.set sim_pthread_spin_init, sim_pthread_noop
.globl sim_pthread_spin_lock
.set sim_pthread_spin_lock, sim_pthread_mutex_lock
.globl sim_pthread_spin_trylock
.set sim_pthread_spin_trylock, sim_pthread_mutex_trylock
.globl sim_pthread_spin_unlock
.set sim_pthread_spin_unlock, sim_pthread_mutex_unlock
.globl sim_putc_unlocked
.set sim_putc_unlocked, sim_putc
.globl sim_putchar_unlocked
.set sim_putchar_unlocked, sim_putchar
.globl sim_pwritev64
.set sim_pwritev64, sim_pwritev
.globl sim_scandir64
.set sim_scandir64, sim_scandir
.globl sim_sendfile64
.set sim_sendfile64, sim_sendfile
.globl sim_srand48
.set sim_srand48, sim_srand
.globl sim_srandom
.set sim_srandom, sim_srand
.globl sim_statfs64
.set sim_statfs64, sim_statfs
.globl sim_statvfs64
.set sim_statvfs64, sim_statvfs
.globl sim_tmpfile64
.set sim_tmpfile64, sim_tmpfile
.globl sim_versionsort64
.set sim_versionsort64, sim_versionsort
.globl sim_vfork
.set sim_vfork, sim_fork
)");
