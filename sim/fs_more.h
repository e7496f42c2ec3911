// Seams for system and C library calls the library does not make today, so that code using them stays inside the simulation.
// Included by fs.cpp.
#include <poll.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/statvfs.h>
#include <sys/vfs.h>
#include <sys/random.h>
#include <glob.h>
#include <signal.h>
#include <spawn.h>

static string at_path(int dfd, const char* path, bool* bad) {
  *bad = false;
  if (!path) return "";
  if (path[0] == '/' || dfd == AT_FDCWD) return path;
  auto o = getfd(dfd, "openat"); if (!o || !o->ino->dir) { errno = o ? ENOTDIR : EBADF; *bad = true; return ""; }
  return o->path + "/" + path;
}
static short ready(Ofd& o, short want) {
  auto i = o.ino; short r = 0;
  if (!i->pipe_cap) return (short)(want & (POLLIN | POLLOUT | POLLRDNORM | POLLWRNORM));
  int acc = o.flags & O_ACCMODE;
  if (acc == O_RDONLY) { if (!i->data.empty()) r |= POLLIN | POLLRDNORM; if (!pipe_end(i.get(), O_WRONLY)) return (short)((r & want) | POLLHUP); }
  else { if (!pipe_end(i.get(), O_RDONLY)) return (short)((want & POLLOUT) | POLLERR); if (i->data.size() < i->pipe_cap) r |= POLLOUT | POLLWRNORM; }
  return (short)(r & want);
}
static int do_poll(struct pollfd* f, nfds_t n, long long us) {   // us < 0: for ever
  OutOfLib ol; seam("poll", "");
  vector<std::shared_ptr<Ofd>> o(n);
  for (nfds_t k = 0; k < n; k++) if (f[k].fd >= 0) o[k] = getfd(f[k].fd, "poll");
  auto count = [&]() { int c = 0; for (nfds_t k = 0; k < n; k++) { short r = f[k].fd < 0 ? 0 : o[k] ? ready(*o[k], f[k].events) : POLLNVAL; f[k].revents = r; if (r) c++; } return c; };
  FaultPlan* pl = the_plan();
  if (plan_applies(pl, n && o[0] ? o[0]->path : string()) && pl->has(FK_EINTR) && choose_fault({FK_EINTR}) >= 0) { fired(FK_EINTR, false); ev("poll", n, 0, -EINTR); errno = EINTR; return -1; }
  int c = count();
  if (!c && us) {
    if (us < 0) block_until("poll", [&]() { return count() > 0; });
    else { u64 until = NOW + (u64)us; future_event(until); block_until("poll", [&]() { return count() > 0 || NOW >= until; }); }
    c = count();
  }
  ev("poll", n, 0, c); return c;
}
static int do_select(int n, fd_set* r, fd_set* w, fd_set* e, long long us) {
  vector<struct pollfd> v;
  for (int k = 0; k < n; k++) { short want = 0; if (r && FD_ISSET(k, r)) want |= POLLIN; if (w && FD_ISSET(k, w)) want |= POLLOUT; if (want) v.push_back({k, want, 0}); }
  int c = do_poll(v.data(), v.size(), us); if (c < 0) return -1;
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
  int s = 0;
  for (auto& p : v) {
    if (p.revents & POLLNVAL) { errno = EBADF; return -1; }
    if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP))) { FD_SET(p.fd, r); s++; }
    if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); s++; }
  }
  return s;
}
struct Map { char* a; size_t n; std::shared_ptr<Ofd> o; u64 off; int prot, flags; int proc; };
static vector<Map> maps;
static void map_sync(Map& m) {
  if (!m.o || !(m.prot & PROT_WRITE) || !(m.flags & MAP_SHARED)) return;
  auto& d = m.o->ino->data; u64 n = m.off >= d.size() ? 0 : std::min<u64>(m.n, d.size() - m.off);
  if (!n || !memcmp(d.data() + m.off, m.a, n)) return;
  Pend p; p.trunc = false; p.zombie = false; p.off = m.off; p.data.assign((uint8_t*)m.a, (uint8_t*)m.a + n);
  dapply(d, p); m.o->ino->touch(); m.o->ino->pend.push_back(std::move(p)); ev("msync", n, 0, 0);
}
static void maps_reset() { for (Map& m : maps) munmap(m.a, m.n); maps.clear(); }
size_t fs_maps(Proc* p) { size_t k = 0; for (Map& m : maps) if (m.proc == p->id) k++; return k; }
struct MemStream { char** b; size_t* n; size_t len, pos; };

extern "C" {
// ---- names relative to a directory
int sim_openat(int dfd, const char* path, int flags, ...) {
  mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = (mode_t)va_arg(ap, int); va_end(ap); }
  bool bad; string s; { OutOfLib ol; s = at_path(dfd, path, &bad); } if (bad) return -1;
  return sim_open(s.c_str(), flags, mode);
}
#define AT1(NAME, CALL) bool bad; string s; { OutOfLib ol; s = at_path(dfd, path, &bad); } if (bad) return -1; return CALL;
int sim_rmdir(const char* path) {
  OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("rmdir", n); touch("rmdir", n, O_WRONLY, -1);
  auto i = fs_ino(n); if (!i || !i->dir) { errno = i ? ENOTDIR : ENOENT; return -1; }
  for (auto& kv : FS.names) if (kv.first != n && dirof(kv.first) == n) { errno = ENOTEMPTY; return -1; }
  FS.names.erase(n); ev("rmdir", 0, 0, 0); return 0;
}
int sim_unlinkat(int dfd, const char* path, int fl) { AT1(unlinkat, (fl & AT_REMOVEDIR) ? sim_rmdir(s.c_str()) : sim_unlink(s.c_str())) }
int sim_mkdirat(int dfd, const char* path, mode_t m) { AT1(mkdirat, sim_mkdir(s.c_str(), m)) }
int sim_fstatat(int dfd, const char* path, struct stat* st, int fl) { if (path && !*path && (fl & AT_EMPTY_PATH)) return sim_fstat(dfd, st); AT1(fstatat, sim_stat(s.c_str(), st)) }
int sim_renameat(int a, const char* x, int b, const char* y) {
  bool bad; string s, t; { OutOfLib ol; s = at_path(a, x, &bad); if (bad) return -1; t = at_path(b, y, &bad); } if (bad) return -1; return sim_rename(s.c_str(), t.c_str());
}
int sim_renameat2(int a, const char* x, int b, const char* y, unsigned fl) {
  if (fl & 1) { struct stat st; if (sim_fstatat(b, y, &st, 0) == 0) { errno = EEXIST; return -1; } }
  return sim_renameat(a, x, b, y);
}
int sim_link(const char* a, const char* b) {
  OutOfLib ol; string x = fs_norm(CUR->proc, a), y = fs_norm(CUR->proc, b); seam("link", y); touch("link", y, O_WRONLY | O_CREAT, -1);
  auto i = fs_ino(x); if (!i) { errno = ENOENT; return -1; } if (fs_ino(y)) { errno = EEXIST; return -1; }
  FS.names[y] = i; ev("link", i->id, 0, 0); return 0;
}
int sim_symlink(const char*, const char*) { errno = EPERM; return -1; }
ssize_t sim_readlink(const char* path, char*, size_t) { OutOfLib ol; string n = fs_norm(CUR->proc, path); seam("readlink", n); errno = fs_ino(n) ? EINVAL : ENOENT; return -1; }
int sim_eaccess(const char* path, int m) { return sim_access(path, m); }
int sim_utimes(const char* path, const void*) { return sim_access(path, 0); }
int sim_utimensat(int dfd, const char* path, const void*, int) { AT1(utimensat, sim_access(s.c_str(), 0)) }
int sim_futimens(int fd, const void*) { struct stat st; return sim_fstat(fd, &st); }
int sim_chown(const char* path, uid_t, gid_t) { return sim_access(path, 0); }
int sim_fchown(int fd, uid_t, gid_t) { struct stat st; return sim_fstat(fd, &st); }
static void tmpname(char* t, int suf) {
  static const char c[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  size_t l = strlen(t); for (int k = 0; k < 6; k++) t[l - (size_t)suf - 6 + (size_t)k] = c[pick(D, 62)];
}
int sim_mkostemps(char* t, int suf, int fl) {
  size_t l = strlen(t); if (suf < 0 || l < 6 + (size_t)suf || memcmp(t + l - (size_t)suf - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
  for (int k = 0; k < 50; k++) { { OutOfLib ol; tmpname(t, suf); } int fd = sim_open(t, (fl & ~O_ACCMODE) | O_RDWR | O_CREAT | O_EXCL, 0600); if (fd >= 0 || errno != EEXIST) return fd; }
  errno = EEXIST; return -1;
}
int sim_mkstemp(char* t) { return sim_mkostemps(t, 0, 0); }
int sim_mkostemp(char* t, int fl) { return sim_mkostemps(t, 0, fl); }
int sim_mkstemps(char* t, int suf) { return sim_mkostemps(t, suf, 0); }
// ---- descriptors
int sim_dup2(int fd, int to) {
  if (fd == to) return fd;
  OutOfLib ol; seam("dup2", ""); auto o = getfd(fd, "dup2"); if (!o) { errno = EBADF; return -1; }
  if (to <= 2 || CUR->proc->appfds.count(to)) getfd(to, "dup2 onto");
  CUR->proc->fds[to] = o; ev("dup2", fd, to, 0); return to;
}
int sim_dup3(int fd, int to, int) { if (fd == to) { errno = EINVAL; return -1; } return sim_dup2(fd, to); }
int sim_poll(struct pollfd* f, nfds_t n, int ms) { return do_poll(f, n, ms < 0 ? -1 : (long long)ms * 1000); }
int sim_ppoll(struct pollfd* f, nfds_t n, const struct timespec* t, const void*) { return do_poll(f, n, t ? (long long)t->tv_sec * 1000000 + t->tv_nsec / 1000 : -1); }
int sim_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { return do_select(n, r, w, e, t ? (long long)t->tv_sec * 1000000 + t->tv_usec : -1); }
int sim_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const void*) { return do_select(n, r, w, e, t ? (long long)t->tv_sec * 1000000 + t->tv_nsec / 1000 : -1); }
int sim_posix_fadvise(int fd, off_t, off_t, int) { OutOfLib ol; auto o = getfd(fd, "fadvise"); return !o ? EBADF : o->ino->pipe_cap ? ESPIPE : 0; }
ssize_t sim_readahead(int fd, off_t o, size_t) { return sim_posix_fadvise(fd, o, 0, 0) ? -1 : 0; }
int sim_sync_file_range(int fd, off_t o, off_t, unsigned) { return sim_posix_fadvise(fd, o, 0, 0) ? -1 : 0; }   // no promise
static int do_falloc(int fd, off_t off, off_t len) {
  OutOfLib ol; seam("fallocate", ""); auto o = getfd(fd, "fallocate"); if (!o) return EBADF;
  if ((o->flags & O_ACCMODE) == O_RDONLY) return EBADF; if (off < 0 || len <= 0) return EINVAL; if (o->ino->pipe_cap) return ESPIPE;
  touch("ftruncate", o->path, o->flags, fd);
  if (int e = simple_fault(SY_FTRUNC, FK_FTRUNC, o->path, {EIO, ENOSPC})) return e;
  u64 end = (u64)off + (u64)len; auto& d = o->ino->data; if (end <= d.size()) return 0;
  if (FS.capacity != ~0ull && used_bytes() + end - d.size() > FS.capacity) { STATS.c["fault.disk_full"]++; if (CUR->proc->plan) CUR->proc->plan->fired++; return ENOSPC; }
  d.resize((size_t)end, 0); o->ino->touch(); o->ino->pend.push_back(Pend{true, end, {}, false}); ev("fallocate", fd, end, 0); return 0;
}
int sim_posix_fallocate(int fd, off_t o, off_t l) { return do_falloc(fd, o, l); }
int sim_fallocate(int fd, int mode, off_t o, off_t l) { if (mode) { errno = EOPNOTSUPP; return -1; } int e = do_falloc(fd, o, l); if (e) { errno = e; return -1; } return 0; }
ssize_t sim_preadv(int fd, const struct sim_iovec* v, int c, off_t o) { for (int i = 0; i < c; i++) if (v[i].n) return do_read(fd, v[i].b, v[i].n, true, (u64)o); return 0; }
ssize_t sim_pwritev(int fd, const struct sim_iovec* v, int c, off_t o) { string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].b, v[i].n); return do_write(fd, s.data(), s.size(), true, (u64)o); }
ssize_t sim_sendfile(int out, int in, off_t* off, size_t n) {
  vector<char> b(std::min<size_t>(n, 65536)); ssize_t r = off ? sim_pread(in, b.data(), b.size(), *off) : sim_read(in, b.data(), b.size());
  if (r <= 0) return r; ssize_t w = sim_write(out, b.data(), (size_t)r); if (w < 0) { if (!off) sim_lseek(in, -r, SEEK_CUR); return w; }
  if (off) *off += w; else if (w < r) sim_lseek(in, w - r, SEEK_CUR); return w;
}
ssize_t sim_copy_file_range(int in, off_t* oi, int out, off_t* oo, size_t n, unsigned) {
  vector<char> b(std::min<size_t>(n, 65536)); ssize_t r = oi ? sim_pread(in, b.data(), b.size(), *oi) : sim_read(in, b.data(), b.size());
  if (r <= 0) return r; ssize_t w = oo ? sim_pwrite(out, b.data(), (size_t)r, *oo) : sim_write(out, b.data(), (size_t)r);
  if (w < 0) { if (!oi) sim_lseek(in, -r, SEEK_CUR); return w; }
  if (oi) *oi += w; else if (w < r) sim_lseek(in, w - r, SEEK_CUR); if (oo) *oo += w; return w;
}
// ---- memory
void* sim_mmap(void*, size_t n, int prot, int flags, int fd, off_t off) {
  OutOfLib ol; seam("mmap", "");
  if (!n || off % 4096) { errno = EINVAL; return MAP_FAILED; }
  if (n > (2048ull << 20)) { errno = ENOMEM; return MAP_FAILED; }
  std::shared_ptr<Ofd> o;
  if (!(flags & MAP_ANONYMOUS)) {
    o = getfd(fd, "mmap"); if (!o) { errno = EBADF; return MAP_FAILED; }
    if (o->ino->dir || o->ino->pipe_cap) { errno = ENODEV; return MAP_FAILED; }
    if ((o->flags & O_ACCMODE) == O_WRONLY || ((flags & MAP_SHARED) && (prot & PROT_WRITE) && (o->flags & O_ACCMODE) != O_RDWR)) { errno = EACCES; return MAP_FAILED; }
    touch("read", o->path, o->flags, fd);
    FaultPlan* pl = the_plan();
    if (plan_applies(pl, o->path) && pl->has(FK_EIO_RW) && pl->op_rw < pl->max_rw && choose_fault({FK_EIO_RW}) >= 0) { fired(FK_EIO_RW, true); pl->op_rw++; errno = ENOMEM; return MAP_FAILED; }
  }
  size_t len = (n + 4095) & ~4095ull;
  char* a = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (a == MAP_FAILED) return a;
  if (o) {
    auto& d = o->ino->data; u64 m = (u64)off >= d.size() ? 0 : std::min<u64>(len, d.size() - (u64)off);
    if (m) memcpy(a, d.data() + off, m);
    u64 pages = (m + 4095) & ~4095ull; if (pages < len) mprotect(a + pages, len - pages, PROT_NONE);   // SIGBUS past the end of the file
    if (pages && !(prot & PROT_WRITE)) mprotect(a, pages, PROT_READ);
  }
  maps.push_back(Map{a, len, o, (u64)off, prot, flags, CUR->proc->id}); ev("mmap", n, off, 0); return a;
}
int sim_munmap(void* a, size_t) {
  OutOfLib ol; seam("munmap", "");
  for (size_t k = 0; k < maps.size(); k++) if (maps[k].a == a) { map_sync(maps[k]); munmap(a, maps[k].n); maps.erase(maps.begin() + (long)k); return 0; }
  violation("heap", "munmap of something that is not mapped");
}
int sim_msync(void* a, size_t, int fl) {
  OutOfLib ol; seam("msync", "");
  for (Map& m : maps) if (a >= m.a && a < m.a + m.n) {
    map_sync(m); if (m.o && (fl & MS_SYNC)) { if (int e = simple_fault(SY_FSYNC, FK_FSYNC, m.o->path, {EIO, ENOSPC})) { sync_failed(*m.o->ino); errno = e; return -1; } do_fsync(*m.o->ino); }
    return 0;
  }
  errno = ENOMEM; return -1;
}
int sim_madvise(void*, size_t, int) { return 0; }
void* sim_reallocarray(void* p, size_t a, size_t b) { if (b && a > (~(size_t)0) / b) { errno = ENOMEM; return nullptr; } return heap_realloc(p, a * b); }
void* sim_memalign(size_t, size_t n) { return heap_malloc(n, false); }
// ---- streams
int sim_fileno(FILE* f) { if (f == stdin) return 0; if (f == stdout) return 1; if (f == stderr) return 2; auto it = filefd.find(f); if (it == filefd.end()) { errno = EBADF; return -1; } return it->second; }
int sim_vdprintf(int fd, const char* fmt, va_list ap) {
  va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, fmt, ap); vector<char> v((size_t)(n < 0 ? 0 : n) + 1); if (n >= 0) vsnprintf(v.data(), v.size(), fmt, a2); va_end(a2);
  if (n < 0) return -1; size_t done = 0; while (done < (size_t)n) { ssize_t w = sim_write(fd, v.data() + done, (size_t)n - done); if (w <= 0) return -1; done += (size_t)w; } return n;
}
int sim_dprintf(int fd, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vdprintf(fd, fmt, ap); va_end(ap); return n; }
ssize_t sim_getdelim(char** l, size_t* n, int delim, FILE* f) {
  size_t k = 0; int c = 0;
  for (;;) {
    c = fgetc(f); if (c == EOF) break;
    if (!*l || k + 2 > *n) { size_t m = *l && *n ? *n * 2 : 120; if (m < k + 2) m = k + 2; char* q = (char*)heap_realloc(*l, m); if (!q) { errno = ENOMEM; return -1; } *l = q; *n = m; }
    (*l)[k++] = (char)c; if (c == delim) break;
  }
  if (!k) return -1; (*l)[k] = 0; return (ssize_t)k;
}
ssize_t sim_getline(char** l, size_t* n, FILE* f) { return sim_getdelim(l, n, '\n', f); }
static ssize_t ms_write(void* c, const char* b, size_t n) {
  MemStream* m = (MemStream*)c; char* q = (char*)heap_realloc(*m->b, m->pos + n + 1); if (!q) return 0;
  *m->b = q; memcpy(q + m->pos, b, n); m->pos += n; m->len = std::max(m->len, m->pos); q[m->len] = 0; *m->n = m->len; return (ssize_t)n;
}
static int ms_close(void* c) { delete (MemStream*)c; return 0; }
FILE* sim_open_memstream(char** b, size_t* n) {
  *b = (char*)heap_malloc(1, true); *n = 0; if (!*b) return nullptr;
  cookie_io_functions_t io; memset(&io, 0, sizeof io); io.write = ms_write; io.close = ms_close; return fopencookie(new MemStream{b, n, 0, 0}, "w", io);
}
FILE* sim_tmpfile(void) { char t[] = "/w/.tmpfileXXXXXX"; int fd = sim_mkstemp(t); if (fd < 0) return nullptr; sim_unlink(t); return sim_fdopen(fd, "w+"); }
FILE* sim_popen(const char*, const char*) { errno = EAGAIN; return nullptr; }
// ---- directories
int sim_scandir(const char* path, struct dirent*** out, int (*flt)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
  void* d = sim_opendir(path); if (!d) return -1;
  struct dirent** v = nullptr; int n = 0; 
  for (;;) {
    errno = 0; struct dirent* e = sim_readdir(d);
    if (!e) { if (errno) { int x = errno; for (int k = 0; k < n; k++) heap_free(v[k]); heap_free(v); sim_closedir(d); errno = x; return -1; } break; }
    if (flt && !flt(e)) continue;
    struct dirent** w = (struct dirent**)heap_realloc(v, sizeof *v * (size_t)(n + 1)); struct dirent* c = (struct dirent*)heap_malloc(sizeof *c, false);
    if (w) v = w; if (!w || !c) { if (c) heap_free(c); for (int k = 0; k < n; k++) heap_free(v[k]); heap_free(v); sim_closedir(d); errno = ENOMEM; return -1; }
    memcpy(c, e, sizeof *c); v[n++] = c;
  }
  if (cmp && n > 1) std::stable_sort(v, v + n, [cmp](struct dirent* a, struct dirent* b) { const struct dirent *x = a, *y = b; return cmp(&x, &y) < 0; });
  sim_closedir(d); if (!v) v = (struct dirent**)heap_malloc(1, false); *out = v; return n;
}
int sim_alphasort(const struct dirent** a, const struct dirent** b) { return strcmp((*a)->d_name, (*b)->d_name); }
int sim_versionsort(const struct dirent** a, const struct dirent** b) { return strverscmp((*a)->d_name, (*b)->d_name); }
void* sim_fdopendir(int fd) { string p; { OutOfLib ol; auto o = getfd(fd, "fdopendir"); if (!o) { errno = EBADF; return nullptr; } p = o->path; } DirH* d = (DirH*)sim_opendir(p.c_str()); if (d) d->fd = fd; return d; }
int sim_dirfd(void* h) { OutOfLib ol; DirH* d = getdir(h); if (d->fd < 0) d->fd = sim_open(d->path.c_str(), O_RDONLY | O_DIRECTORY); return d->fd; }
void sim_seekdir(void* h, long p) { getdir(h)->pos = (size_t)p; }
long sim_telldir(void* h) { return (long)getdir(h)->pos; }
static int glob_lstat(const char* p, struct stat* s) { return sim_stat(p, s); }
int sim_glob(const char* pat, int fl, int (*err)(const char*, int), glob_t* g) {
  g->gl_opendir = sim_opendir; g->gl_readdir = sim_readdir; g->gl_closedir = (void (*)(void*))(void*)sim_closedir; g->gl_stat = sim_stat; g->gl_lstat = glob_lstat;
  string p = pat[0] == '/' ? pat : CUR->proc->cwd + "/" + pat;
  int r = glob(p.c_str(), fl | GLOB_ALTDIRFUNC, err, g);
  if (r == 0) { CUR->proc->regs.insert(g); if (pat[0] != '/') for (size_t k = 0; k < g->gl_pathc; k++) { char* s = g->gl_pathv[g->gl_offs + k]; size_t c = CUR->proc->cwd.size() + 1; memmove(s, s + c, strlen(s) - c + 1); } }
  return r;
}
void sim_globfree(glob_t* g) { CUR->proc->regs.erase(g); globfree(g); }
// ---- what a process knows
int sim_isatty(int) { errno = ENOTTY; return 0; }
pid_t sim_getppid(void) { return 999; }
pid_t sim_gettid(void) { return 100000 + CUR->id; }
static void fill_vfs(unsigned long* bs, unsigned long* fr) { *bs = 4096; u64 u = used_bytes(); *fr = FS.capacity == ~0ull ? 1ul << 30 : FS.capacity > u ? (FS.capacity - u) / 4096 : 0; }
int sim_statvfs(const char* path, struct statvfs* s) { if (sim_access(path, 0)) return -1; memset(s, 0, sizeof *s); fill_vfs(&s->f_bsize, &s->f_bfree); s->f_frsize = 4096; s->f_bavail = s->f_bfree; s->f_blocks = s->f_bfree + 1000; s->f_namemax = 255; return 0; }
int sim_fstatvfs(int fd, struct statvfs* s) { struct stat st; if (sim_fstat(fd, &st)) return -1; return sim_statvfs("/w", s); }
int sim_statfs(const char* path, struct statfs* s) { if (sim_access(path, 0)) return -1; memset(s, 0, sizeof *s); unsigned long b, f; fill_vfs(&b, &f); s->f_bsize = 4096; s->f_bfree = s->f_bavail = f; s->f_blocks = f + 1000; s->f_namelen = 255; s->f_type = 0xef53; return 0; }
int sim_fstatfs(int fd, struct statfs* s) { struct stat st; if (sim_fstat(fd, &st)) return -1; return sim_statfs("/w", s); }
char* sim_secure_getenv(const char* n) { return sim_getenv(n); }
int sim_putenv(char* s) { const char* e = strchr(s, '='); if (!e) return sim_unsetenv(s); CUR->proc->env[string(s, (size_t)(e - s))] = e + 1; return 0; }
int sim_rand(void) { u64& s = CUR->proc->rnd; s = s * 6364136223846793005ull + 1442695040888963407ull; return (int)(s >> 33); }
long sim_random(void) { return sim_rand(); }
long sim_lrand48(void) { return sim_rand(); }
void sim_srand(unsigned s) { CUR->proc->rnd = s; }
double sim_drand48(void) { return sim_rand() / 2147483648.0; }
int sim_rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (int)(*s >> 1); }
ssize_t sim_getrandom(void* b, size_t n, unsigned) { OutOfLib ol; for (size_t k = 0; k < n; k++) ((uint8_t*)b)[k] = (uint8_t)pick(D, 256); return (ssize_t)n; }
int sim_getentropy(void* b, size_t n) { sim_getrandom(b, n, 0); return 0; }
unsigned sim_arc4random(void) { unsigned v; sim_getrandom(&v, sizeof v, 0); return v; }
long sim_clock(void) { return (long)NOW; }
int sim_clock_nanosleep(int, int fl, const struct timespec* t, struct timespec*) {
  OutOfLib ol; u64 us = (u64)t->tv_sec * 1000000 + (u64)t->tv_nsec / 1000;
  if (fl) { u64 now = 1700000000ull * 1000000 + NOW; us = us > now ? us - now : 0; }
  sleep_us(us); return 0;
}
int sim_pause(void) { OutOfLib ol; block_until("pause", []() { return false; }); errno = EINTR; return -1; }
// ---- signals: none are delivered; handlers, mask and alarm are state of the process
unsigned sim_alarm(unsigned s) { unsigned o = CUR->proc->alarm; CUR->proc->alarm = s; return o; }
static void* handler_of(int sig) { auto i = CUR->proc->sigs.find(sig); return i == CUR->proc->sigs.end() ? (void*)SIG_DFL : i->second; }
static void set_handler(int sig, void* h) { if (h == (void*)SIG_DFL) CUR->proc->sigs.erase(sig); else CUR->proc->sigs[sig] = h; }
int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* old) {
  if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) { errno = EINVAL; return -1; }
  void* was = handler_of(sig); if (old) { memset(old, 0, sizeof *old); old->sa_handler = (void (*)(int))was; }
  if (a) set_handler(sig, (void*)a->sa_handler);
  return 0;
}
void* sim_signal(int sig, void* h) { if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) { errno = EINVAL; return (void*)SIG_ERR; } void* was = handler_of(sig); set_handler(sig, h); return was; }
int sim_sigprocmask(int how, const sigset_t* s, sigset_t* old) {
  u64& m = CUR->proc->sigmask; u64 v = 0; if (s) memcpy(&v, s, 8);
  if (old) { sigemptyset(old); memcpy(old, &m, 8); }
  if (!s) return 0;
  if (how == SIG_BLOCK) m |= v; else if (how == SIG_UNBLOCK) m &= ~v; else if (how == SIG_SETMASK) m = v; else { errno = EINVAL; return -1; }
  return 0;
}
int sim_pthread_sigmask(int h, const sigset_t* s, sigset_t* old) { int e = errno; if (sim_sigprocmask(h, s, old) < 0) { errno = e; return EINVAL; } return 0; }
int sim_raise(int sig) { if (!sig) return 0; violation("crash", sfmt("the library raised signal %d", sig)); }
int sim_kill(pid_t p, int sig) { if (!sig) { for (Proc* q : all_procs()) if (q->alive && 1000 + q->id == p) return 0; errno = ESRCH; return -1; } violation("crash", sfmt("the library sent signal %d to process %d", sig, (int)p)); }
// ---- no other programs
pid_t sim_fork(void) { errno = EAGAIN; return -1; }
int sim_system(const char* c) { if (!c) return 0; errno = EAGAIN; return -1; }
int sim_exec() { errno = EACCES; return -1; }
int sim_posix_spawn(pid_t*, const char*, const void*, const void*, char* const*, char* const*) { return EAGAIN; }
int sim_atexit(void (*)(void)) { return 0; }
void sim_syslog(int, const char*, ...) {}
// ---- threads
int sim_pthread_rwlock_rdlock(void* m) {
  OutOfLib ol; yield_point("rwlock"); auto k = std::make_pair(CUR->proc->id, m);
  if (mtx[k] > 0) block_until("rwlock", [k]() { return mtx[k] <= 0; });
  mtx[k]--; return 0;
}
int sim_pthread_rwlock_tryrdlock(void* m) { auto k = std::make_pair(CUR->proc->id, m); if (mtx[k] > 0) return EBUSY; mtx[k]--; return 0; }
int sim_pthread_rwlock_wrlock(void* m) { return sim_pthread_mutex_lock(m); }
int sim_pthread_rwlock_trywrlock(void* m) { return sim_pthread_mutex_trylock(m); }
int sim_pthread_rwlock_unlock(void* m) { OutOfLib ol; auto k = std::make_pair(CUR->proc->id, m); if (mtx[k] < 0) mtx[k]++; else mtx[k] = 0; yield_point("rwlock"); return 0; }
int sim_pthread_once(int* c, void (*f)(void)) {
  auto k = std::make_pair(CUR->proc->id, (void*)c);
  { OutOfLib ol; yield_point("once"); if (mtx[k]) block_until("once", [k]() { return mtx[k] == 0; }); }
  if (*c) return 0;
  mtx[k] = CUR->id + 1; f(); *c = 1; mtx[k] = 0; return 0;
}
int sim_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
int sim_pthread_noop() { return 0; }
int sim_pthread_create() { return EAGAIN; }
} // extern "C"
void more_reset() { maps_reset(); filefd.clear(); }
