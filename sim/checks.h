#pragma once
#include "ops.h"
void run_c01(); void run_c02(); void run_c03(); void run_c04(); void run_c05(); void run_c06(); void run_c07(); void run_c08();
void run_c09(); void run_c10(); void run_c11(); void run_c12(); void run_c13(); void run_c14(); void run_c15(); void run_c16();
void run_c17(); void run_c18(); void run_c19(); void run_c20(); void run_c21(); void run_c22(); void run_c23(); void run_c24();

// shared by the collective workloads
struct Verdicts { vector<int> rc; bool all(int v) const { for (int r : rc) if (r != v) return false; return true; }
  bool unanimous() const { for (int r : rc) if ((r == KV_OK) != (rc[0] == KV_OK)) return false; return true; }
  string show() const { string s; for (int r : rc) s += r == -100 ? " none" : r == KV_OK ? " ok" : " fail"; return s; } };
struct Step {
  int kind = 0, a = 0, b = 0, comm = 0; Tree t, pre; vector<Tree> ts, pres; vector<int> to, from;
  vector<vector<std::pair<int, Tree>>> q; vector<Tree> want; string prefix; int tag = 0; bool last = false; u32 id = 0;
};
int pick_ranks(u32 most);
Job* make_job(int n, const string& name);
vector<int> some_ranks(int n, bool all);
void run_ranks(Job* j, const vector<int>& members, const std::function<void(int)>& body, const char* what);
void gather_body(const string& prefix, const vector<Tree>& v, int me, MPI_Comm c, Verdicts& out);
void scatter_body(const string& prefix, const Tree& pre, int me, MPI_Comm c, Verdicts& out, vector<Tree>& got);
vector<Tree> pres_of(int n); vector<Tree> rank_data(int n); unsigned long pick_seg();
u64 fired_of(Job* j);
vector<FaultPlan*> plans_for(Job* j, u32 mask, bool sticky);
string odd_prefix();
vector<std::pair<string, string>> put_neighbours(const string& prefix, Rng& r, int n);
void set_must_hold(const string& prefix, const vector<Tree>& v, bool durable, const char* sig, const string& what);
void gen_exchange(Step& s, int n); void gen_shift(Step& s, int n, const GenOpt& go, bool self);
void do_exchange(const Step& s, int me, MPI_Comm c); void do_send(const Step& s, MPI_Comm c); void do_recv(const Step& s, MPI_Comm c);
void do_shift(const Step& s, int me, MPI_Comm c); void do_bcast(const Step& s, int me, MPI_Comm c);
int run_print(const vector<string>& args);
FaultPlan* transient_plan();
