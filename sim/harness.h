// What the workloads share.
#pragma once
#include "core.h"
#include "fs.h"
#include "mpisim.h"
#include "api.h"
#include "tree.h"
#include <cerrno>
#include <fcntl.h>

#define KV_OK 0
inline u32 M(FK k) { return 1u << k; }
const u32 SOFT = 1u << FK_EINTR | 1u << FK_EAGAIN | 1u << FK_SHORT | 1u << FK_STALL;
const u32 HARD = 1u << FK_EIO_RW | 1u << FK_ZERO_WRITE | 1u << FK_ENOSPC | 1u << FK_OPEN | 1u << FK_ACCESS | 1u << FK_FSYNC |
                 1u << FK_CLOSE | 1u << FK_FTRUNC | 1u << FK_LSEEK;
const u32 LOCKF = 1u << FK_LOCK | 1u << FK_LOCK_EINTR | 1u << FK_UNLOCK;
const u32 DIRF = 1u << FK_OPENDIR | 1u << FK_READDIR;

struct CheckDef {
  const char* id; void (*run)(); u32 quick, thorough; const char* rule; const char* real; const char* note;
};
extern vector<CheckDef> CHECKS;
extern bool NONTRIV;               // this run exercised what the check is about
extern string SAMPLE;              // one-line description of the run
extern bool DEMO;                  // running a scripted demonstration of a known finding

FaultPlan* new_plan();
// random plan over the kinds in the mask; never empty of kinds
FaultPlan* gen_plan(u32 mask, bool maysticky);
void plans_reset();
void op_begin();
u64 fired_now();                   // hard faults delivered so far to the current process

// run one process to its end; deadlock is a violation
Proc* in_proc(const string& name, const std::function<void()>& body, FaultPlan* pl = nullptr);
void run_all(const char* what);    // run_sched, deadlock is a violation (unless power was lost)
void check_exits();                // a library call ended a process: violation
string long_prefix();
string pick_prefix();              // file name
void base_setup(bool threads_only_flock = false);     // picks library variant, heap mode, scheduling bias

struct Census { set<int> fds; size_t dirs = 0, regs = 0, maps = 0; u64 live = 0; };
Census census(Proc* p);
string census_diff(const Census& a, const Census& b, Proc* p, bool mem, const set<int>& handed = {});
bool holds_lock(Proc* p, string* where = nullptr);

// sets
struct SetFile { string path; int level; int writer; vector<std::pair<int, Tree>> ranks; };
struct SetWalk { bool ok = false; string why; map<int, Tree> ranks; set<string> files; vector<SetFile> leaves; int top = 0; int nranks = 0; vector<SetFile> maps; };
SetWalk walk_set(const string& prefix, bool durable = false);
// writes an intact set, as another implementation would; returns its files
vector<string> build_set(const string& prefix, const vector<Tree>& data, Rng& r, bool deep);
bool parse_int(const string& s, long& v);
const Tree* val1(const Tree& t, const string& key, string& out);   // key -> exactly one value

// damage a stored file; returns a description
struct Damage { int kind; string what; bool must_fail; };
Damage damage_file(const string& path, bool allow_missing, bool allow_append);

// formats
string res(int rc);
