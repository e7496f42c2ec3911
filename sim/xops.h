// Calls of the library cut into preparation, the call itself, and the harvest of what it produced,
// so that resources, touched files, allocations and results can be observed around the call alone.
#pragma once
#include "checks.h"

struct SS { int op; string k, v; long n; Tree t; };        // step of a tree script
struct StepRes { bool ok; string data; };

enum XK { X_WRITE, X_WLOCK, X_OPENREAD, X_RMW, X_WFD, X_READ, X_RLOCK, X_RFD, X_WSET, X_RSET, X_PERSIST, X_PRINT, X_SCRIPT, X_TOOL, X_BAD, X_N };
extern const char* XNAME[];

struct XOp {
  XK k = X_READ; string path; Tree t, pre; int ranks = 0; string epf; bool use_epf = false; vector<SS> sc; int variant = 0;
  // live
  kvtree *a = nullptr, *b = nullptr; int fd = -1, appfd = -1; int rc = -100, rc2 = -100; void* buf = nullptr; size_t len = 0;
  bool handed = false; vector<StepRes> steps;
  // harvest
  bool ok = false; string out; Tree got; string persisted;
  bool reads() const { return k == X_OPENREAD || k == X_READ || k == X_RLOCK || k == X_RFD || k == X_RSET || k == X_TOOL; }
  bool writes() const { return k == X_WRITE || k == X_WLOCK || k == X_RMW || k == X_WFD || k == X_WSET; }
  bool set() const { return k == X_WSET || k == X_RSET; }
  bool files() const { return reads() || writes(); }
  void prep(); void go(); void post();
  void release();                  // forget what an unfinished call left (the process is gone)
  string show() const;
};
XOp gen_xop(const vector<XK>& kinds, const string& path, const string& prefix, const GenOpt& go);
vector<SS> gen_script(u32 n);
extern bool SCRIPT_ELEM;              // scripts may take elements out of trees (nothing frees those)
extern vector<int> SCRIPT_FOCUS;   // steps scripts of this run consist of mostly
extern bool DUMP_QUIET;            // no preemption while the harness walks a tree
void pick_focus();
string dump(const kvtree* h);      // in iteration order
extern const Tree NOTREE;
