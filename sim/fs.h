// Simulated file system, descriptors, locks, faults.
#pragma once
#include "core.h"

struct Pend { bool trunc; u64 off; vector<uint8_t> data; bool zombie; };  // trunc: off = new size
struct Inode {
  int id = 0; bool dir = false; mode_t mode = 0644;
  vector<uint8_t> data;            // what processes see
  vector<uint8_t> ddata;           // what is on the platter
  vector<Pend> pend;               // visible but not durable
  int flock_ex = -1;               // ofd id
  set<int> flock_sh;
  int plk_ex = -1; set<int> plk_sh;  // posix: process ids
  int waiters = 0;
  bool fsync_failed = false;
  u64 max_readers = 0;
  u64 mtime = 0; void touch();     // time stamps have the granularity of a kernel tick
  u64 pipe_cap = 0;                // > 0: a pipe holding at most this many bytes (in data)
};
struct Ofd {
  int id = 0; std::shared_ptr<Inode> ino; u64 off = 0; int flags = 0; string path; int opener = -1; bool app = false;
  ~Ofd();
};
struct DirH { string path; vector<string> names; size_t pos; bool open; void* ent; int fd; };

// fault kinds
enum FK {
  FK_EINTR, FK_EAGAIN, FK_SHORT, FK_EIO_RW, FK_ZERO_WRITE, FK_ENOSPC, FK_OPEN, FK_ACCESS, FK_FSYNC, FK_CLOSE,
  FK_FTRUNC, FK_LOCK, FK_LOCK_EINTR, FK_UNLOCK, FK_LSEEK, FK_OPENDIR, FK_READDIR, FK_STALL, FK_KILL, FK_POWER, FK_N
};
extern const char* FKNAME[FK_N];
enum Sys { SY_OPEN, SY_READ, SY_WRITE, SY_LSEEK, SY_FTRUNC, SY_FSYNC, SY_CLOSE, SY_FLOCK, SY_FCNTL, SY_ACCESS, SY_OPENDIR, SY_READDIR, SY_OTHER, SY_N };
extern const char* SYNAME[SY_N];

struct FaultPlan {
  u32 mask = 0;                    // enabled kinds
  u32 rate = 0;                    // per mille, per eligible site
  u32 killrate = 0;                // per 10000
  bool sticky = false;             // a hard error stays for its syscall class
  int max_open = 1 << 30;          // consecutive open failures allowed per op
  int max_rw = 1 << 30;            // hard read/write errors allowed per op
  int budget = 1 << 30;            // total faults allowed
  string only_path;                // restrict to paths starting with this
  // state
  int op_rw = 0, op_open = 0;
  int sticky_err[SY_N] = {0};      // errno (or -1 for special zero write)
  bool by_path = false;            // an error sticks to the file it happened on, not to the system call everywhere
  map<string, int> sticky_path[SY_N];
  void clear_sticky() { for (int& e : sticky_err) e = 0; for (auto& m : sticky_path) m.clear(); }
  int stuck(Sys s, const string& path) const { if (!by_path) return sticky_err[s]; auto i = sticky_path[s].find(path); return i == sticky_path[s].end() ? 0 : i->second; }
  u64 fired = 0;                   // hard errors actually delivered
  u64 fired_soft = 0;              // EINTR/EAGAIN/short/stall
  u64 fired_kind[FK_N] = {0};
  void begin_op() { op_rw = 0; op_open = 0; }
  bool has(FK k) const { return mask >> k & 1; }
};

struct Touch { int proc; string op; string what; string path; int flags; int fd; };

struct Fs {
  map<string, std::shared_ptr<Inode>> names, dnames;   // visible and durable directory
  u64 capacity = ~0ull;            // bytes
  int next_ino = 1, next_ofd = 1;
  vector<Touch> touches;           // audit log
  bool audit = false;
  u32 readdir_seed = 0;
  u64 foreign = 0; string foreign_msg;
  bool shared_wait = false; string shared_wait_msg;   // a reader waited for a reader
  u32 maxlat = 0;                  // latency of a system call, us
};
extern Fs FS;

void fs_reset();
void fs_new_proc(Proc* p);
void fs_proc_gone(Proc* p);
void fs_mkdir(const string& d);
// harness access (no faults, no scheduling)
bool fs_exists(const string& p);
std::shared_ptr<Inode> fs_ino(const string& p);
void fs_put(const string& p, const string& bytes, mode_t mode = 0644);   // durable file
bool fs_get(const string& p, string& bytes);
bool fs_get_durable(const string& p, string& bytes);
void fs_rm(const string& p);
vector<string> fs_list(const string& dirprefix);
string fs_norm(const Proc* p, const string& path);
void fs_power_fail();              // volatile state is lost; what is unsynced survives in part
void fs_drop_lock_state();
bool fs_any_lock(string* who = nullptr);
extern bool FD0_FREE;
size_t fs_maps(Proc* p);           // mappings the process holds
int fs_app_open(Proc* p, const string& path);   // descriptor owned by the application
// a pipe from one process to another; returns the descriptors
void fs_pipe(Proc* from, Proc* to, u64 cap, bool nonblock_from, bool nonblock_to, int* wfd, int* rfd);
u64 faults_fired(const vector<Proc*>& ps);
