// Cooperative deterministic scheduler: "threads" are fibers of one OS thread and
// every atomic operation, lock operation and notification of the code under test is
// a scheduling point (see shim.h, which is force-included into every file).
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstddef>
#include <functional>
namespace sched {
void point();                 // a scheduling point; no-op outside a run
void yielded();               // the running fiber cannot make progress now
bool spurious();              // should this weak compare-exchange fail spuriously?
void block(const std::function<bool()> &ready);   // wait until ready() holds
int self();                   // index of the running fiber, -1 outside
bool active();
#ifdef VERIF_SIM
int spawn(const std::function<void()> &fn);
void join(int);
void sigblock(bool); bool sigblocked(); bool sigpend(bool take);
#endif
void dead(const char *what);  // a destroyed primitive is used
}
#endif
