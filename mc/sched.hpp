// Controlled scheduler: runs the library's threads as fibers of one OS thread and lets the explorer
// choose the interleaving.  Schedule points: every memory access of the instrumented sources outside
// the running fiber's own stack, every pthread operation, and sched::point()/yield() of the harness.
//
// The library sources named in the check's "mc: tsan" directive are compiled with clang's
// -fsanitize=thread instrumentation, but linked against this file instead of the sanitizer's runtime.
#pragma once
#include "mc.hpp"
#include <functional>

namespace sched
{
   struct Bounds
   {
      int preemptions = 2; // context switches away from a thread that could go on
      int timeouts = 1;    // time-outs of timed waits that fire although another thread could run
      int createFails = 0; // pthread_create calls that may fail
      int maxPoints = 20000; // schedule points of one execution; more = no progress
      // Only synchronisation is a schedule point; of two accesses to the same memory, one of them a write, one must
      // happen before the other (vector clocks).  Without such races, the order of the synchronisation determines
      // everything the threads can see.
      bool races = false;
   };
   // f initialises the library: what it allocates is put back to the state at its end before each execution
   void setup(std::function<void()> f);
   // f runs outside of executions, after setup(): what it leaves in static variables is forgotten
   void warmUp(std::function<void()> f);
   // explores nothing by itself: one execution under c's choices.  body runs as the first thread.
   void run(mc::Ctx& c, const Bounds& b, std::function<void()> body);
   // --- inside run()
   int spawn(const std::function<void()>& f);
   void join(int id);
   void point(const char* what);   // the harness is about to access shared state
   void yield(bool must = true);   // busy waiting: lets another thread run; must: it is an error if none ever can
   [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
   void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // trace
   size_t liveBlocks();            // heap blocks allocated since run() and not freed
   int self();
   bool blocked(int id);           // thread waits in a condition variable
   int threads();                  // number of threads created so far
   int createCalls();
   unsigned long accesses();       // memory accesses checked for races in this execution
   int forcedTimeouts();           // time-outs that fired because nothing else could go on
   double deadline();              // seconds from the start of the execution until the deadline of the last timed wait
   // what gettimeofday() etc. say in executions: a fixed second and this fraction; a look at it takes a
   // microsecond, time-outs move it to the time waited for
   void startTime(long micros);
}
#define SEXPECT(cond, ...) do { if(!(cond))sched::fail(__VA_ARGS__); } while(0)
