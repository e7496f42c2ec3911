// Operations of the workloads, run inside a fiber.
#pragma once
#include "harness.h"
extern "C" int sim_close(int);

// an application closes a descriptor it was handed
inline void app_close(int fd) {
  Proc* p = CUR->proc; auto it = p->fds.find(fd); if (it == p->fds.end()) return;
  Inode& i = *it->second->ino; if (i.plk_ex == p->id) i.plk_ex = -1; i.plk_sh.erase(p->id);
  p->fds.erase(it); ev("app-close", (u64)fd, 0, 0);
}
enum RK { RK_FILE, RK_LOCK, RK_OPEN, RK_FD, RK_N };
extern const char* RKNAME[];
struct HoldInfo { int fd = -1; string bad; };
// checks what a locked open-and-read handed out; returns complaints
string handed_check(int rc, int fd, const string& path, const set<int>& before);
// read path into dst by the given reader; returns KV_OK or not. For RK_FD a missing file fails.
int read_op(int kind, const string& path, kvtree* dst, string* complaint = nullptr);
struct Rd { int rc; Tree t; };
Rd read_fresh(int kind, const string& path);          // into an empty tree
enum WK { WK_FILE, WK_LOCK, WK_RMW, WK_FD, WK_N };
extern const char* WKNAME[];
// write; for WK_RMW reads first (and reports what was read)
int write_op(int kind, const string& path, const Tree& t, Rd* rd = nullptr, const std::function<void()>& started = nullptr);
Tree rank_tree(const vector<Tree>& v);                // rank number -> tree
int write_set(const string& prefix, const Tree& data, int ranks, const char* epf = nullptr);
Rd read_set(const string& prefix);
string bytes_of(const string& path);
string garbage(u32 n, u32 seed);
GenOpt normal_opt(); GenOpt big_opt();
string why_not(const Tree& want, const Rd& got);      // "" if got is a successful read of want
