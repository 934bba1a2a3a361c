// sched.h - deterministic thread scheduler.
//
// The executable defines the pthread synchronisation functions.  While
// sched::run() is active every thread is serialised: at each synchronisation
// call the generator decides which thread continues, which waiter a signal
// wakes and whether a wait wakes up spuriously, so a schedule is part of the
// generated (and shrunk, and replayed) case.  No runnable thread = deadlock.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <functional>
#include "pbt.h"

namespace sched {

struct Stats {
  int threads = 0;    // created during the run
  int unfinished = 0; // still alive when the main thread ended
  int unjoined = 0;   // ended, but neither joined nor detached
  int steps = 0;      // scheduling points
  int switches = 0;
};

// runs fn as thread 0
Stats run(pbt::Gen& g, pbt::Ctx& c, const std::function<void()>& fn);
bool active();
// explicit scheduling point
void point();
// blocks until no other thread can run
void wait_quiescent();
// a managed thread of the harness itself
int spawn(const std::function<void()>& fn);
void join(int id);
bool finished(int id);
// ends the case; usable from any thread
[[noreturn]] void fail(const std::string& key, const std::string& msg);
// tracking of operator new/delete (only counts while a run tracks)
void track(bool on);
size_t tracked_live();
bool tracked(const void* p);

}  // namespace sched
#endif
