// Serialises the threads of a driver: exactly one runs at a time, and it is decided here, from a seed, where control
// moves to another one: at every pthread mutex/condition/create/join call and, in code compiled with
// -fsanitize-coverage=trace-pc, at every basic block.  Blocking is simulated, so that a deadlock is noticed.
#pragma once
#include <cstdint>
namespace sched
{
void begin(std::uint64_t seed);       // the calling thread becomes thread 0
void end();                           // waits for all other threads, and stops
int self();                           // number of the calling thread, -1 if it is not scheduled
void point();                         // control may move here
extern void (*on_stuck)();            // nothing can run
extern void (*on_unhandled)();        // called in a catch block: an exception left a thread's function
struct quiet { quiet(); ~quiet(); };  // no switches meanwhile, unless blocked
std::uint64_t points();
}
