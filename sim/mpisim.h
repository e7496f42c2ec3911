#pragma once
#include "core.h"
#include "lib/mpi.h"

// A job is a set of processes that communicate.
struct Comm;
struct Job {
  int id = 0;
  vector<Proc*> procs;
  bool dead = false;               // a member died: nobody waits forever, the launcher kills the rest
  u32 maxdelay = 0;                // message latency bound, us
  u32 eager_num = 1;               // probability of eager sends: eager_num/4 (0 = always rendezvous, 4 = always eager)
  u32 late_copy = 0;               // probability /4 that a buffer is read or written late
  Comm* world = nullptr; map<Proc*, Comm*> self;
  unsigned long segsize = 0;       // override of the library's segment size (0 = none)
};
Job* mpi_new_job(int n, const string& name);
// communicator over a subset of the job's processes, in the given order; same handle on all
MPI_Comm mpi_make_comm(Job* j, const vector<int>& ranks);
void mpi_reset();
void mpi_proc_gone(Proc* p);
// after a job's processes returned: complaints about leftovers, or ""
string mpi_leftovers(Job* j);
extern u64 MPI_MSGS;
