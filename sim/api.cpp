#include "api.h"
#include <dlfcn.h>
Api L;
static Api tabs[2];
void api_load(int v, void* h) {
#define X(r, n, a) tabs[v].n = (r (*) a)dlsym(h, #n);
  API_LIST(X)
#undef X
  string miss;
#define X(r, n, a) if (!tabs[v].n) miss += string(" ") + #n;
  API_LIST(X)
#undef X
  if (!miss.empty()) harness_error("functions missing from the library:" + miss);
}
void api_use(int v) { L = tabs[v]; }
