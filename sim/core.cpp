#include <sys/time.h>
#include "core.h"
#include "fs.h"
#include "mpisim.h"
#include "api.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <ucontext.h>

// ---------------------------------------------------------------- choices
Choices CH;
Stats STATS;
Violation VIO;
bool VERBOSE = false;
u64 TRACE_HASH, SCHED_HASH, TRACE_LEN;
vector<string> TRACE_TEXT;

u64 mix64(u64 a, u64 b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull)); r.next(); return r.next(); }
u64 hashstr(const string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

void Choices::seed(u64 s) {
  replay = false;
  for (int i = 0; i < NSTREAM; i++) { rng[i] = Rng(mix64(s, 1000 + i)); rec[i].clear(); pos[i] = 0; }
}
void Choices::load(const vector<u32> in[NSTREAM]) {
  replay = true;
  for (int i = 0; i < NSTREAM; i++) { rec[i] = in[i]; pos[i] = 0; }
}
u32 draw(Stream st, u32 n, const std::function<u32(Rng&)>& gen) {
  if (n <= 1) return 0;
  u32 v;
  if (CH.replay) {
    v = CH.pos[st] < CH.rec[st].size() ? CH.rec[st][CH.pos[st]] : 0;
    if (v >= n) v %= n;
    CH.pos[st]++;
  } else {
    v = gen(CH.rng[st]);
    if (v >= n) v = n - 1;
    CH.rec[st].push_back(v);
  }
  return v;
}
u32 pick(Stream st, u32 n) { return draw(st, n, [n](Rng& r) { return (u32)r.below(n); }); }
bool chance(Stream st, u32 num, u32 den) {
  if (num == 0) return false;
  if (num >= den) { draw(st, 2, [](Rng&) -> u32 { return 1; }); return true; }
  return draw(st, 2, [=](Rng& r) { return (u32)(r.below(den) < num ? 1 : 0); });
}
u32 pickw(Stream st, std::initializer_list<u32> w) {
  vector<u32> v(w); u64 tot = 0; for (u32 x : v) tot += x;
  u32 i = draw(st, (u32)v.size(), [&](Rng& r) { u64 k = r.below(tot); u32 i = 0; while (k >= v[i]) { k -= v[i]; i++; } return i; });
  // a replayed (minimised) choice is never one that a run would not make
  if (tot && !v[i]) { i = 0; while (!v[i]) i++; }
  return i;
}
u32 range(Stream st, u32 lo, u32 hi) { return hi <= lo ? lo : lo + pick(st, hi - lo + 1); }
u32 skewed(Stream st, u32 lo, u32 hi) {
  if (hi <= lo) return lo;
  u32 n = hi - lo + 1;
  return lo + draw(st, n, [n](Rng& r) -> u32 {
    u32 m = n; int k = (int)r.below(4);
    for (int i = 0; i < k && m > 2; i++) m = (m + 1) / 2;
    return (u32)r.below(m);
  });
}

string sfmt(const char* f, ...) {
  va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// ---------------------------------------------------------------- globals
Fiber* CUR = nullptr;
Proc* LASTPROC = nullptr;
u64 NOW, STEPS, STEP_BUDGET = 60000000, SEAMS;
u32 SW_STICKY = 0;
bool BB_PREEMPT = false;
u32 BB_MEAN = 200;
bool POWER_LOST = false;
static long bb_left = 0;
static vector<Proc*> procs;
static vector<Fiber*> fibers;
static std::multiset<u64> future;
static void* main_sp = nullptr;
static Fiber* LASTFIBER = nullptr;
vector<Proc*>& all_procs() { return procs; }

extern "C" void sim_swtch(void** from, void* to);
asm(R"(
.text
.globl sim_swtch
.type sim_swtch,@function
sim_swtch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swtch,.-sim_swtch
)");

// ---------------------------------------------------------------- trace
void ev(const char* op, u64 a, u64 b, u64 r) {
  u64 h = TRACE_HASH;
  auto f = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0x100000001b3ull; };
  f(CUR ? CUR->id + 1 : 0);
  for (const char* p = op; *p; p++) f((unsigned char)*p);
  f(a); f(b); f(r);
  TRACE_HASH = h;
  TRACE_LEN++;
  if (VERBOSE) {
    char t[512];
    snprintf(t, sizeof t, "%8llu us  %-10s %-14s a=%lld b=%lld -> %lld", (unsigned long long)NOW,
             CUR ? CUR->proc->name.c_str() : "-", op, (long long)a, (long long)b, (long long)r);
    TRACE_TEXT.push_back(t);
  }
}
void note(const string& s) {
  TRACE_HASH = mix64(TRACE_HASH, hashstr(s));
  TRACE_LEN++;
  if (VERBOSE) TRACE_TEXT.push_back(sfmt("%8llu us  %-10s ", (unsigned long long)NOW, CUR ? CUR->proc->name.c_str() : "-") + s);
}

void violation(const string& sig, const string& msg) {
  if (!VIO.hit) {
    VIO.hit = true; VIO.sig = sig; VIO.msg = msg;
    if (CUR && !CUR->op.empty()) VIO.msg += " [in " + CUR->op + " by " + CUR->proc->name + "]";
    if (VERBOSE) TRACE_TEXT.push_back("VIOLATION " + VIO.sig + ": " + VIO.msg);
  }
  if (CUR) {
    if (CUR->in_cond) { harness_error("violation inside a wait condition: " + msg); }
    Fiber* f = CUR; f->st = DEAD;
    void* dummy; sim_swtch(&dummy, main_sp);
    abort();
  }
  throw RunFailed();
}
void harness_error(const string& msg) {
  fprintf(stderr, "HARNESS-ERROR: %s\n", msg.c_str());
  fflush(stderr);
  _exit(97);
}

// ---------------------------------------------------------------- stacks
static const size_t STK = 4u << 20, STK_TOP = 32768, STK_MARGIN = 1u << 20;
static vector<char*> stacks, stack_low; static vector<int> free_stacks;
static int stack_get() {
  if (!free_stacks.empty()) { int i = free_stacks.back(); free_stacks.pop_back(); return i; }
  char* p = (char*)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) harness_error("mmap stack");
  mprotect(p, 4096, PROT_NONE);
  stacks.push_back(p + 4096); stack_low.push_back(p + 4096 + STK - STK_TOP);
  return (int)stacks.size() - 1;
}

// ---------------------------------------------------------------- library images
struct LibImg {
  void* h = nullptr;
  uint8_t* dstart = nullptr; size_t dlen = 0;    // writable, non-relro
  vector<uint8_t> init;
  uint8_t* tls = nullptr; size_t tlslen = 0; vector<uint8_t> tlsinit;
  u64 base = 0, tlo = 0, thi = 0;
  vector<u32> cov;
};
static LibImg libs[2]; static int curlib = 0;

static int phdr_cb(struct dl_phdr_info* i, size_t, void* arg) {
  LibImg* L = (LibImg*)arg;
  struct link_map* lm; dlinfo(L->h, RTLD_DI_LINKMAP, &lm);
  if ((u64)i->dlpi_addr != (u64)lm->l_addr || !i->dlpi_name || strcmp(i->dlpi_name, lm->l_name)) return 0;
  u64 rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_GNU_RELRO) { rlo = i->dlpi_addr + p.p_vaddr; rhi = (rlo + p.p_memsz + 4095) & ~4095ull; }
  }
  L->base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    u64 lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
    if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) { L->tlo = lo; L->thi = hi; }
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      if (rhi > lo) lo = std::max(lo, rhi);
      if (lo < hi) { L->dstart = (uint8_t*)lo; L->dlen = hi - lo; }
    }
    if (p.p_type == PT_TLS && i->dlpi_tls_data) { L->tls = (uint8_t*)i->dlpi_tls_data; L->tlslen = p.p_memsz; }
  }
  return 1;
}
static void load_lib(int v, const char* so) {
  LibImg& L = libs[v];
  L.h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
  if (!L.h) harness_error(string("dlopen: ") + dlerror());
  dl_iterate_phdr(phdr_cb, &L);
  if (!L.thi) harness_error("cannot find the library's segments");
  if (L.dstart) L.init.assign(L.dstart, L.dstart + L.dlen);
  if (L.tls) L.tlsinit.assign(L.tls, L.tls + L.tlslen);
  L.cov.assign(L.thi - L.tlo, 0);
  api_load(v, L.h);
}
void heap_init();
void core_init(const char* base) {
  heap_init();
  load_lib(0, (string(base) + "/libkv_flock.so").c_str());
  load_lib(1, (string(base) + "/libkv_fcntl.so").c_str());
  // fault handling on an alternate stack
  static char alt[65536];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = [](int sig, siginfo_t* si, void* uc) {
    u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (CUR && (CUR->in_lib > 0 || CUR->sys > 0) && !CUR->in_cond) {
      LibImg& L = libs[curlib];
      string where;
      if (pc >= L.tlo && pc < L.thi) {
        Dl_info di; if (dladdr((void*)pc, &di) && di.dli_sname) where = di.dli_sname;
      }
      const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGILL ? "illegal instruction" : "abort";
      ev("FAULT", sig, 0, 0);
      if (CUR->in_lib == 0) violation("crash", sfmt("%s on memory the library passed to a system or MPI call", n));
      violation("crash", sfmt("%s in library code%s%s", n, where.empty() ? "" : " near ", where.c_str()));
    }
    fprintf(stderr, "HARNESS-CRASH: signal %d at %p addr %p\n", sig, (void*)pc, si->si_addr);
    signal(sig, SIG_DFL); raise(sig);
  };
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  // a loop without any basic-block callback (an empty loop of one block) escapes the step budget: five seconds of processor time in
  // library code without a callback or a simulated call are a hang
  struct sigaction wd; memset(&wd, 0, sizeof wd);
  wd.sa_sigaction = [](int, siginfo_t*, void* uc) {
    static u64 steps, seams; static int same;
    if (!CUR || CUR->in_lib == 0 || CUR->in_cond || steps != STEPS || seams != SEAMS) { steps = STEPS; seams = SEAMS; same = 0; return; }
    u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (++same < 50 || pc < libs[curlib].tlo || pc >= libs[curlib].thi) return;
    same = 0;
    violation("hang", "no progress: library code loops without end");
  };
  wd.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART;
  sigaction(SIGVTALRM, &wd, nullptr);
}
void watchdog(bool on) { struct itimerval t; memset(&t, 0, sizeof t); if (on) t.it_interval.tv_usec = t.it_value.tv_usec = 100000; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
void use_lib(int v) { curlib = v; api_use(v); }

static void img_save(Proc* p) { LibImg& L = libs[curlib]; if (L.dlen) { p->img.resize(L.dlen); memcpy(p->img.data(), L.dstart, L.dlen); } }
static void img_load(Proc* p) { LibImg& L = libs[curlib]; if (L.dlen && p->img.size() == L.dlen) memcpy(L.dstart, p->img.data(), L.dlen); }

// coverage and preemption
extern "C" void __sanitizer_cov_trace_pc() {
  u64 pc = (u64)__builtin_return_address(0);
  LibImg& L = libs[curlib];
  if (pc - L.tlo < L.cov.size()) L.cov[pc - L.tlo]++;
  if (!CUR || CUR->in_cond) return;
  STEPS++;
  char* sp = (char*)__builtin_frame_address(0);
  char*& low = stack_low[CUR->stack];
  if (sp < low && sp >= stacks[CUR->stack]) {
    low = sp;
    if (sp < stacks[CUR->stack] + STK_MARGIN) violation("crash", "the stack is exhausted (3 MB of frames in one call)");
  }
  if (++CUR->steps > STEP_BUDGET) violation("hang", sfmt("no progress: %llu basic blocks executed in one call", (unsigned long long)CUR->steps));
  if (BB_PREEMPT && CUR->in_lib > 0 && !CUR->nopreempt && --bb_left <= 0) {
    u32 mean = BB_MEAN;
    bb_left = 1 + draw(S, 1u << 20, [mean](Rng& r) -> u32 {
      if (r.below(3) == 0) return (u32)r.below(8);
      return (u32)r.below(2 * mean + 1); });
    int e = errno;
    yield_point("bb");
    errno = e;
  }
}
void cover_collect(vector<u32>& out) {
  for (int v = 0; v < 2; v++) for (size_t i = 0; i < libs[v].cov.size(); i++) if (libs[v].cov[i]) out.push_back((u32)(v << 28 | i));
}
u64 cover_count() { u64 n = 0; for (int v = 0; v < 2; v++) for (u32 x : libs[v].cov) n += x != 0; return n; }

// ---------------------------------------------------------------- scheduler
Proc* new_proc(const string& name) {
  Proc* p = new Proc; p->id = (int)procs.size(); p->name = name;
  p->img = libs[curlib].init;
  procs.push_back(p);
  fs_new_proc(p);
  return p;
}
static void fiber_main() {
  Fiber* f = CUR;
  f->body();
  f->st = DONE;
  f->body = nullptr;
  bool last = true;
  for (Fiber* g : f->proc->fibers) if (g->st != DONE && g->st != DEAD) last = false;
  if (last) { f->proc->alive = false; f->proc->exited = true; f->proc->status = 0; fs_proc_gone(f->proc); }
  void* d; sim_swtch(&d, main_sp);
  abort();
}
Fiber* spawn(Proc* p, const std::function<void()>& body) {
  Fiber* f = new Fiber; f->id = (int)fibers.size(); f->proc = p; f->body = body;
  f->stack = stack_get();
  f->tls = libs[curlib].tlsinit;
  // deterministic stale stack contents: a fixed pattern near the top, zero below it
  char* top = stacks[f->stack] + STK - STK_TOP; char*& low = stack_low[f->stack];
  memset(top, STACK_FILL, STK_TOP);
  char* lo = low - 65536 < stacks[f->stack] ? stacks[f->stack] : low - 65536;
  if (low < top) { memset(lo, 0, (size_t)(top - lo)); low = top; }
  u64* sp = (u64*)(stacks[f->stack] + STK);
  *--sp = 0;
  *--sp = (u64)(void*)fiber_main;   // return address; after ret rsp%16==8
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  fibers.push_back(f);
  p->fibers.push_back(f);
  return f;
}
static bool ready(Fiber* f) {
  switch (f->st) {
    case READY: return true;
    case BLOCKED: { Fiber* c = CUR; CUR = f; f->in_cond = true; bool r = f->cond(); f->in_cond = false; CUR = c; return r; }
    case SLEEPING: return NOW >= f->wake;
    default: return false;
  }
}
static void switch_to(Fiber* f) {
  LibImg& L = libs[curlib];
  if (LASTPROC != f->proc) {
    if (LASTPROC) img_save(LASTPROC);
    img_load(f->proc);
    LASTPROC = f->proc;
  }
  if (L.tlslen && LASTFIBER != f) {
    if (LASTFIBER) LASTFIBER->tls.assign(L.tls, L.tls + L.tlslen);
    if (f->tls.size() == L.tlslen) memcpy(L.tls, f->tls.data(), L.tlslen);
  }
  LASTFIBER = f;
  f->st = READY; f->cond = nullptr;
  CUR = f;
  errno = f->err;
  sim_swtch(&main_sp, f->sp);
  f->err = errno;
  CUR = nullptr;
}
RunEnd run_sched() {
  Fiber* last = nullptr;
  vector<Fiber*> r;
  while (true) {
    if (VIO.hit) throw RunFailed();
    if (POWER_LOST) { return STUCK; }
    r.clear();
    bool live = false;
    u64 next = ~0ull;
    for (Fiber* f : fibers) {
      if (f->st == DONE || f->st == DEAD) continue;
      live = true;
      if (f->st == SLEEPING && f->wake > NOW) next = std::min(next, f->wake);
      if (ready(f)) r.push_back(f);
    }
    if (!live) return ALL_DONE;
    if (r.empty()) {
      while (!future.empty() && *future.begin() <= NOW) future.erase(future.begin());
      if (!future.empty()) next = std::min(next, *future.begin());
      if (next == ~0ull) return STUCK;
      NOW = next;
      continue;
    }
    // 0 = stay with the previous fiber if possible
    size_t n = r.size();
    size_t li = n;
    for (size_t i = 0; i < n; i++) if (r[i] == last) li = i;
    if (li < n && li != 0) std::rotate(r.begin(), r.begin() + li, r.end());
    u32 k = 0;
    if (n > 1) {
      bool havelast = li < n;
      k = draw(S, (u32)n, [&](Rng& g) -> u32 {
        if (havelast && g.below(1000) < SW_STICKY) return 0;
        return (u32)g.below(n); });
      SCHED_HASH = mix64(SCHED_HASH, r[k]->id + 77);
    }
    last = r[k];
    SEAMS++;
    if (SEAMS > 3000000) violation("hang", "no progress: three million scheduling points");
    NOW += 1;
    switch_to(last);
  }
}
static void to_sched() {
  Fiber* f = CUR;
  int il = f->in_lib;
  sim_swtch(&f->sp, main_sp);
  f->in_lib = il;
}
void yield_point(const char* why) {
  if (!CUR) return;
  CUR->st = READY; CUR->where = why;
  to_sched();
}
void block_until(const char* why, const std::function<bool()>& c) {
  if (!CUR) harness_error("block in main context");
  CUR->st = BLOCKED; CUR->where = why; CUR->cond = c;
  to_sched();
}
void sleep_us(u64 us) {
  if (!CUR) return;
  CUR->st = SLEEPING; CUR->where = "sleep"; CUR->wake = NOW + us;
  to_sched();
}
void future_event(u64 at) { if (at > NOW) future.insert(at); }

void kill_proc(Proc* p, const char* why) {
  if (!p->alive) return;
  p->alive = false; p->killed = true;
  ev(why, p->id, 0, 0);
  for (Fiber* f : p->fibers) if (f->st != DONE) f->st = DEAD;
  fs_proc_gone(p);
  mpi_proc_gone(p);
}
void maybe_die(const char* where) {
  if (CUR && !CUR->proc->alive) {
    CUR->st = DEAD;
    void* d; sim_swtch(&d, main_sp);
    abort();
  }
}
void proc_exit(int status) {
  Proc* p = CUR->proc;
  p->alive = false; p->exited = true; p->called_exit = true; p->status = status & 0xff;
  ev("exit", p->id, (u64)p->status, 0);
  for (Fiber* f : p->fibers) if (f->st != DONE) f->st = DEAD;
  fs_proc_gone(p);
  mpi_proc_gone(p);
  void* d; sim_swtch(&d, main_sp);
  abort();
}
string stuck_report() {
  string s;
  for (Fiber* f : fibers) if (f->st == BLOCKED || f->st == SLEEPING || f->st == READY)
    s += sfmt("%s waits in %s (%s); ", f->proc->name.c_str(), f->where, f->op.c_str());
  if (s.size() > 600) s = s.substr(0, 600) + "...";
  return s;
}

uint8_t STACK_FILL = 0xc7;
// stale stack contents: what uninitialised variables of the call hold
static void __attribute__((noinline)) scribble() { char b[3072]; memset(b, STACK_FILL, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
LibCall::LibCall(const char* name) : f(CUR) {
  scribble();
  if (!f) harness_error("library call from the main context");
  if (f->in_lib == 0) f->steps = 0;
  saved = f->op; f->op = name; f->in_lib++;
  ev(name, 0, 0, 0);
}
LibCall::~LibCall() { f->in_lib--; f->op = saved; }
const char* cur_op() { return CUR ? CUR->op.c_str() : ""; }

// ---------------------------------------------------------------- heap
int HEAP_MODE = 0;
uint8_t HEAP_FILL = 0xa5;
u64 HEAP_CAP = 256u << 20;
static const u64 ARENA = 0x510000000000ull, ARENA_LEN = 6ull << 30;
static const u64 GARENA = 0x520000000000ull, GARENA_LEN = 6ull << 30;
static u64 arena_top = 0, arena_peak = 0, garena_top = 0; static bool arena_up = false;
struct Hdr { u64 magic; u64 size; u32 proc; u32 state; u64 next; };  // 32 bytes
static const u64 HMAGIC = 0x48e4a9b1c0ffee11ull;
static const u64 RZ = 32;
struct GBlk { u64 size; u64 addr; u64 pages; u32 proc; u32 state; bool prot; };
static std::unordered_map<u64, GBlk> gblks;
// blocks of at most a page live in slots (a page and an inaccessible page behind it) that stay mapped from run to run
static const u64 SLOTS = 0x530000000000ull, NSLOT = 4000; static u64 slot_top = 0, gfrees = 0;

// HEAP_MODE 2: a freed block is handed out again for the next allocation of its size, as real allocators do
static std::unordered_map<u64, vector<u64>> reuse;
static u64 reuse_key(u32 proc, u64 n) { return ((u64)proc << 40) | ((n + 15) >> 4); }
static vector<u32> blk_at;                       // offsets of the arena blocks, in units of 16 bytes, ascending
static void arena_init() {
  if (arena_up) return; arena_up = true;
  if (mmap((void*)ARENA, ARENA_LEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)ARENA) harness_error("arena");
  if (mmap((void*)GARENA, GARENA_LEN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)GARENA) harness_error("garena");
}
void heap_init() {                               // once, before the workers are forked
  arena_init();
  if (mmap((void*)SLOTS, NSLOT * 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)SLOTS) harness_error("slots");
  for (u64 i = 0; i < NSLOT; i++) mprotect((void*)(SLOTS + i * 8192 + 4096), 4096, PROT_NONE);
}
static void heap_reset() {
  arena_init();
  for (auto& g : gblks) if (g.second.prot && g.second.addr >= SLOTS) mprotect((void*)g.second.addr, 4096, PROT_READ | PROT_WRITE);
  slot_top = 0; gfrees = 0;
  if (arena_peak > (8u << 20)) { madvise((void*)ARENA, arena_peak, MADV_DONTNEED); arena_peak = 0; }
  else if (arena_top > arena_peak) arena_peak = arena_top;
  arena_top = 0;
  if (garena_top) { madvise((void*)GARENA, garena_top, MADV_DONTNEED); mprotect((void*)GARENA, garena_top, PROT_NONE); }
  garena_top = 0; gblks.clear();
  HEAP_MODE = 0; HEAP_FILL = 0xa5; STACK_FILL = 0xc7; blk_at.clear(); reuse.clear();
}
void* heap_malloc(size_t n, bool zero) {
  Proc* p = CUR ? CUR->proc : nullptr;
  if (p) {
    long k = p->alloc_no++;
    if (p->alloc_fail_at >= 0 && (k == p->alloc_fail_at || (p->alloc_fail_sticky && k > p->alloc_fail_at))) {
      COUNT("fault.alloc"); p->allocs_failed++; ev("malloc-fail", n, k, 0); errno = ENOMEM; return nullptr;
    }
  }
  if (n > HEAP_CAP) { ev("malloc-huge", n, 0, 0); COUNT("probe.malloc_huge"); errno = ENOMEM; return nullptr; }
  if (HEAP_MODE == 1 && garena_top + n + 8192 < GARENA_LEN && gblks.size() < 4000) {
    u64 align = n % 16 == 0 ? 16 : n % 8 == 0 ? 8 : n % 4 == 0 ? 4 : 1;
    u64 len = n ? n : 1; (void)align;
    u64 pages = (len + 4095) / 4096;
    bool slot = pages == 1 && slot_top < NSLOT;
    u64 base = slot ? SLOTS + slot_top++ * 8192 : GARENA + garena_top;
    if (!slot && mprotect((void*)base, pages * 4096, PROT_READ | PROT_WRITE)) harness_error("mprotect");
    u64 a = base + pages * 4096 - len;
    if (n % 8 == 0) a &= ~7ull;
    memset((void*)base, HEAP_FILL, pages * 4096);
    if (zero) memset((void*)a, 0, n);
    if (!slot) garena_top += (pages + 1) * 4096;
    gblks[a] = GBlk{n, base, pages, p ? (u32)p->id : ~0u, 1, false};
    if (p) { p->live++; p->live_bytes += n; }
    return (void*)a;
  }
  if (HEAP_MODE == 2) {
    auto i = reuse.find(reuse_key(p ? (u32)p->id : ~0u, n));
    if (i != reuse.end() && !i->second.empty()) {
      uint8_t* u = (uint8_t*)i->second.back(); i->second.pop_back(); Hdr* h = (Hdr*)u - 1;
      if (h->magic != HMAGIC || h->state != 2) violation("heap", "allocation header overwritten");
      for (u64 k = 0; k < h->size; k++) if (u[k] != 0xdb) violation("heap", sfmt("write to freed memory (a %llu-byte block)", (unsigned long long)h->size));
      h->size = n; h->state = 1; h->proc = p ? p->id : ~0u;
      memset(u, zero ? 0 : HEAP_FILL, n); memset(u + n, 0xfb, ARENA + h->next - (u64)(u + n));
      if (p) { p->live++; p->live_bytes += n; }
      return u;
    }
  }
  u64 need = sizeof(Hdr) + ((n + 15) & ~15ull) + RZ;
  if (arena_top > (1536u << 20)) violation("memory-runaway", sfmt("the calls of this run allocated more than %u MB", 1536u));
  if (arena_top + need > ARENA_LEN) { errno = ENOMEM; return nullptr; }
  Hdr* h = (Hdr*)(ARENA + arena_top);
  blk_at.push_back((u32)(arena_top >> 4));
  arena_top += need;
  h->magic = HMAGIC; h->size = n; h->proc = p ? p->id : ~0u; h->state = 1; h->next = arena_top;
  uint8_t* u = (uint8_t*)(h + 1);
  memset(u, zero ? 0 : HEAP_FILL, n);
  memset(u + n, 0xfb, ARENA + arena_top - (u64)(u + n));
  if (p) { p->live++; p->live_bytes += n; }
  return u;
}

void heap_range(const void* q, u64 n, const char* what) {
  u64 a = (u64)q;
  if (a < ARENA || a >= ARENA + arena_top || blk_at.empty()) return;
  auto it = std::upper_bound(blk_at.begin(), blk_at.end(), (u32)((a - ARENA) >> 4));
  if (it == blk_at.begin()) violation("heap", sfmt("%s memory outside every allocation", what));
  Hdr* h = (Hdr*)(ARENA + ((u64)*--it << 4));
  u64 u = (u64)(h + 1);
  if (a < u) violation("heap", sfmt("%s memory outside every allocation", what));
  if (h->state != 1) violation("heap", sfmt("%s memory that was already freed", what));
  if (a + n > u + h->size) violation("heap", sfmt("%s %llu bytes at offset %llu of a %llu-byte allocation", what, (unsigned long long)n, (unsigned long long)(a - u), (unsigned long long)h->size));
}
bool heap_owns(void* q) { u64 a = (u64)q; return (a >= ARENA && a < ARENA + arena_top) || gblks.count(a); }
static Hdr* hdr_of(void* q, const char* what) {
  u64 a = (u64)q;
  if (a < ARENA + sizeof(Hdr) || a >= ARENA + arena_top || (a & 15)) violation("heap", sfmt("%s of a pointer that was never allocated", what));
  Hdr* h = (Hdr*)q - 1;
  if (h->magic != HMAGIC) violation("heap", sfmt("%s of a pointer into the middle of memory or a damaged block header", what));
  if (h->state != 1) violation("heap", sfmt("%s of memory that was already freed", what));
  return h;
}
static void rz_check(Hdr* h) {
  uint8_t* u = (uint8_t*)(h + 1);
  uint8_t* e = (uint8_t*)(ARENA) + h->next;
  for (uint8_t* p = u + h->size; p < e; p++) if (*p != 0xfb)
    violation("heap", sfmt("write past the end of a %llu-byte allocation (offset %lld)", (unsigned long long)h->size, (long long)(p - u)));
}
void heap_free(void* q) {
  if (!q) return;
  auto it = gblks.find((u64)q);
  if (it != gblks.end()) {
    GBlk& g = it->second;
    if (g.state != 1) violation("heap", "free of memory that was already freed");
    g.state = 2;
    if (g.proc != ~0u) { procs[g.proc]->live--; procs[g.proc]->live_bytes -= g.size; }
    // a freed block becomes inaccessible, or (most small ones: protecting is slow) is poisoned and checked at the end
    if (g.addr < SLOTS || gfrees++ % 8 == 0) { mprotect((void*)g.addr, g.pages * 4096, PROT_NONE); g.prot = true; }
    else memset((void*)g.addr, 0xdb, 4096);
    return;
  }
  Hdr* h = hdr_of(q, "free");
  rz_check(h);
  h->state = 2;
  if (h->proc != ~0u) { procs[h->proc]->live--; procs[h->proc]->live_bytes -= h->size; }
  memset(q, 0xdb, h->size);
  if (HEAP_MODE == 2) reuse[reuse_key(h->proc, h->size)].push_back((u64)q);
}
void* heap_realloc(void* q, size_t n) {
  if (!q) return heap_malloc(n, false);
  u64 old;
  auto it = gblks.find((u64)q);
  if (it != gblks.end()) { if (it->second.state != 1) violation("heap", "realloc of freed memory"); old = it->second.size; }
  else old = hdr_of(q, "realloc")->size;
  void* r = heap_malloc(n, false);
  if (!r) return nullptr;
  memcpy(r, q, std::min<u64>(old, n));
  heap_free(q);
  return r;
}
void heap_check() {
  for (auto& k : gblks) { GBlk& g = k.second; if (g.state == 2 && !g.prot) for (u64 i = 0; i < 4096; i += 8) if (*(u64*)(g.addr + i) != 0xdbdbdbdbdbdbdbdbull) violation("heap", sfmt("write to freed memory (a %llu-byte block)", (unsigned long long)g.size)); }
  u64 off = 0;
  while (off < arena_top) {
    Hdr* h = (Hdr*)(ARENA + off);
    if (h->magic != HMAGIC) violation("heap", "allocation header overwritten");
    rz_check(h);
    if (h->state == 2) {
      uint8_t* u = (uint8_t*)(h + 1);
      for (u64 i = 0; i < h->size; i++) if (u[i] != 0xdb) violation("heap", sfmt("write to freed memory (a %llu-byte block)", (unsigned long long)h->size));
    }
    off = h->next;
  }
}
string heap_live_report(Proc* p) {
  string s; u64 off = 0; int n = 0;
  while (off < arena_top) {
    Hdr* h = (Hdr*)(ARENA + off);
    if (h->magic != HMAGIC) break;
    if (h->state == 1 && h->proc == (u32)p->id && n++ < 6) {
      string t; const char* u = (const char*)(h + 1);
      for (u64 i = 0; i < h->size && i < 24 && u[i] >= 32 && u[i] < 127; i++) t += u[i];
      s += sfmt("%llu bytes '%s'; ", (unsigned long long)h->size, t.c_str());
    }
    off = h->next;
  }
  return s;
}

// ---------------------------------------------------------------- reset
void core_reset() {
  for (Fiber* f : fibers) delete f;
  fibers.clear();
  free_stacks.clear();
  for (int i = (int)stacks.size() - 1; i >= 0; i--) free_stacks.push_back(i);
  for (Proc* p : procs) delete p;
  procs.clear();
  future.clear();
  CUR = nullptr; LASTPROC = nullptr; LASTFIBER = nullptr;
  NOW = 0; STEPS = 0; SEAMS = 0; STEP_BUDGET = 60000000;
  SW_STICKY = 0; BB_PREEMPT = false; BB_MEAN = 200; bb_left = 0; POWER_LOST = false;
  VIO = Violation(); TRACE_HASH = 0x1234; SCHED_HASH = 0x77; TRACE_LEN = 0; TRACE_TEXT.clear();
  heap_reset();
  fs_reset();
  mpi_reset();
  for (int v = 0; v < 2; v++) { LibImg& L = libs[v]; if (L.dlen) memcpy(L.dstart, L.init.data(), L.dlen); if (L.tlslen) memcpy(L.tls, L.tlsinit.data(), L.tlslen); }
}
