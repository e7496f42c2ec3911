// Core of the simulator: choice streams, fibers, processes, scheduler, heap.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <functional>
#include <algorithm>
#include <sys/types.h>

typedef uint64_t u64;
typedef uint32_t u32;
using std::string;
using std::vector;
using std::map;
using std::set;

// ---------------------------------------------------------------- choices
struct Rng {                       // splitmix64 / xorshift
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
               z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
};
u64 mix64(u64 a, u64 b);
u64 hashstr(const string& s);

enum Stream { W = 0, S = 1, F = 2, D = 3, NSTREAM = 4 };

struct Choices {
  bool replay = false;
  Rng rng[NSTREAM];
  vector<u32> rec[NSTREAM];        // recorded (or to be replayed)
  size_t pos[NSTREAM] = {0, 0, 0, 0};
  void seed(u64 s);
  void load(const vector<u32> in[NSTREAM]);
};
extern Choices CH;

// draw a value in [0,n); in generate mode gen() supplies it
u32 draw(Stream st, u32 n, const std::function<u32(Rng&)>& gen);
u32 pick(Stream st, u32 n);                       // uniform, 0 simplest
bool chance(Stream st, u32 num, u32 den);         // false simplest
u32 pickw(Stream st, std::initializer_list<u32> weights);  // weighted index
u32 range(Stream st, u32 lo, u32 hi);             // inclusive
// skewed small: mostly near lo, sometimes up to hi
u32 skewed(Stream st, u32 lo, u32 hi);

// ---------------------------------------------------------------- statistics
struct Stats {
  map<string, u64> c;
  void add(const char* k, u64 n = 1) { c[k] += n; }
};
extern Stats STATS;
#define COUNT(k) (STATS.c[k]++)

// ---------------------------------------------------------------- violations
struct RunFailed {};               // unwinds the main context only
struct Violation { bool hit = false; string sig; string msg; };
extern Violation VIO;
[[noreturn]] void violation(const string& sig, const string& msg);
[[noreturn]] void harness_error(const string& msg);
string sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- trace
extern bool VERBOSE;
extern u64 TRACE_HASH, SCHED_HASH;
extern u64 TRACE_LEN;
extern vector<string> TRACE_TEXT;
void ev(const char* op, u64 a = 0, u64 b = 0, u64 r = 0);
void note(const string& s);        // harness-level narrative, also hashed

// ---------------------------------------------------------------- processes and fibers
struct Ofd; struct Proc; struct Fiber; struct Job; struct FaultPlan; struct DirH;

enum FState { READY, BLOCKED, SLEEPING, DONE, DEAD };

struct Fiber {
  int id;
  Proc* proc;
  void* sp = nullptr;
  int stack = -1;
  FState st = READY;
  std::function<bool()> cond;
  u64 wake = 0;
  std::function<void()> body;
  int in_lib = 0;
  bool nopreempt = false;           // no preemption between basic blocks for now
  int sys = 0;                      // inside a simulated system call made by the library
  u64 steps = 0;                   // basic blocks in the current call
  int err = 0;                     // errno
  vector<uint8_t> tls;
  const char* where = "";          // what it waits for
  string op;                       // current API call
  bool in_cond = false;
  u32 polls = 0;                   // polls in a row that found nothing
  FaultPlan* plan = nullptr;       // faults of this thread only, instead of those of its process
};

struct Proc {
  int id;
  string name;
  bool called_exit = false;        // through exit(), not by returning
  bool alive = true, exited = false, killed = false, noted = false;
  int status = 0;
  std::map<int, std::shared_ptr<Ofd>> fds;
  set<int> appfds;                 // descriptors owned by the application
  mode_t umask = 022;
  string cwd = "/w";
  map<string, string> env;
  map<int, void*> sigs;            // signal handlers other than the default
  u64 sigmask = 0; unsigned alarm = 0;
  string out, err;                 // captured stdio
  long out_cap = -1;               // bytes standard output still takes, then it fails (-1: no limit)
  bool out_err = false;            // some output was lost
  string outbuf;                   // written to standard output, still in the stream's buffer (only with a limit)
  vector<uint8_t> img;             // private copy of the library's data segment
  FaultPlan* plan = nullptr;
  Job* job = nullptr;
  int rank = -1;
  long nap_at = -1, mpi_calls = 0; u64 nap_us = 0;   // stalls for long at one of its MPI calls
  vector<Fiber*> fibers;
  map<string, void*> envptr;
  vector<DirH*> dirs;
  u64 live = 0;                    // live heap blocks
  u64 live_bytes = 0;
  // allocation failure injection
  long alloc_fail_at = -1;         // fail when alloc_no reaches this
  bool alloc_fail_sticky = false;
  long alloc_no = 0;
  u64 allocs_failed = 0;
  set<int> lockino_posix;          // inodes with a posix lock
  u64 umask_bad = 0, rnd = 1;      // rnd: state of rand()
  set<void*> regs;                 // compiled regular expressions not freed
  string fault_log;
};
extern "C" int out_flush(Proc* p);  // what the C library does at exit and in fflush(stdout)

extern Fiber* CUR;                 // running fiber or null in the main context
extern Proc* LASTPROC;
extern u64 NOW;                    // simulated microseconds
extern u64 STEPS;                  // library basic blocks in this run
extern u64 STEP_BUDGET;
extern u64 SEAMS;                  // scheduling points in this run
extern u32 SW_STICKY;              // per-mille probability to keep running the same fiber
extern bool BB_PREEMPT;            // preempt at basic blocks
extern u32 BB_MEAN;

Proc* new_proc(const string& name);
Fiber* spawn(Proc* p, const std::function<void()>& body);
// run everything until all fibers are done, dead, or nothing can move
enum RunEnd { ALL_DONE, STUCK };
RunEnd run_sched();
void yield_point(const char* why);
void block_until(const char* why, const std::function<bool()>& c);
void sleep_us(u64 us);
void future_event(u64 at);         // makes the clock advance there when idle
void kill_proc(Proc* p, const char* why);
[[noreturn]] void proc_exit(int status);
string stuck_report();
void maybe_die(const char* where); // if the current process was killed, never returns
extern bool POWER_LOST;            // set by a power failure inside a run_sched

void core_reset();                 // start of a run
void core_init(const char* sofile);// dlopen etc.
void use_lib(int variant);
vector<Proc*>& all_procs();

// ---------------------------------------------------------------- heap
void* heap_malloc(size_t n, bool zero);
void heap_free(void* p);
void* heap_realloc(void* p, size_t n);
bool heap_owns(void* p);
void heap_range(const void* p, u64 n, const char* what);   // violation if [p, p+n) leaves its heap block
void heap_check();                 // redzones and poison of everything; violation on damage
extern int HEAP_MODE;              // 0 normal, 1 guard pages, 2 freed blocks are used again
extern uint8_t HEAP_FILL, STACK_FILL;
string heap_live_report(Proc* p);
extern u64 HEAP_CAP;

// enter/leave library
struct LibCall {
  Fiber* f; string saved;
  LibCall(const char* name);
  ~LibCall();
};

extern map<u64, u32> COVER;        // library pc offset -> hits (per worker)
void cover_collect(vector<u32>& out);
void watchdog(bool on);
u64 cover_count();
const char* cur_op();
