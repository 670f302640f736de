// mc: tsan Object.cpp AutoreleasePool.cpp Mutex.cpp Thread.cpp
// mc: extra sched.cpp
// Threads: the body runs once per start(), interrupt() always ends it and returns afterwards.
#include "lib.hpp"
#include "sched.hpp"
#include <atomic>
#include <unistd.h>
using namespace jm;
const char* const kProperty = "L02";

namespace
{
   enum Kind { kAtOnce, kSleep, kSleepMs, kBusy, kSleepOnce, kSleepMsOnce, kKinds };
   const char* const kNames[] = {"ends at once", "while(isAlive())sleep()", "while(isAlive())sleep(10)", "while(isAlive()) lock, count, unlock", "sleep() once", "sleep(10) once"};

   struct Worker : public Thread
   {
      int kind;
      int runs = 0, ends = 0, starts = 0;
      bool stopping = false;    // interrupt() has been called for the current start
      int wakes = 0, wakesDone = 0; // begun, finished
      bool inside = false;      // in the section protected by lock()
      int counter = 0;
      int fiber = -1;
      bool resting = false;
      explicit Worker(int k): kind(k) {}
      bool awake() // isAlive() as the body sees it
      {
         bool a = isAlive();
         SEXPECT(a || stopping, "isAlive() is false in the body although nobody interrupted it");
         return a;
      }
      void rest(bool timed)
      {
         int w = wakesDone;
         resting = true;
         if(timed)sleep(10);
         else sleep();
         resting = false;
         if(!timed)SEXPECT(wakes > w || stopping, "sleep() came back although nobody woke the thread up");
      }
      void section(int by)
      {
         lock();
         SEXPECT(!inside, "two threads are between lock() and unlock()");
         inside = true;
         sched::point("section");
         counter += by;
         sched::point("section");
         inside = false;
         unlock();
      }
      void run() override
      {
         fiber = sched::self();
         runs++;
         sched::note("body begins");
         SEXPECT(runs == starts, "the body runs %d times for %d starts", runs, starts);
         switch(kind)
         {
            case kAtOnce: break;
            case kSleep: while(awake())rest(false); break;
            case kSleepMs: while(awake())rest(true); break;
            case kBusy:
               while(awake())
               {
                  section(1);
                  sched::yield(false);
               }
               break;
            case kSleepOnce: rest(false); break;
            case kSleepMsOnce: rest(true); break;
         }
         sched::point("end");
         sched::note("body ends");
         ends++;
      }
      // --- the controller's side
      void doStart()
      {
         sched::note("start");
         starts++;
         stopping = false;
         bool ok = true;
         int creates = sched::createCalls(), n = sched::threads();
         try
         {
            start();
         }
         catch(Exception&)
         {
            ok = false;
         }
         SEXPECT(sched::createCalls() > creates, "start() did not create a thread");
         if(sched::threads() == n)
         {
            SEXPECT(!ok, "start() succeeded although no thread could be created");
            starts--;
            SEXPECT(!isAlive(), "isAlive() after start() failed");
         }
         else
         {
            SEXPECT(ok, "start() failed although the thread has been created");
            SEXPECT(isAlive(), "not isAlive() after start()");
         }
      }
      void doInterrupt()
      {
         sched::note("interrupt");
         stopping = true;
         int forced = sched::forcedTimeouts();
         interrupt();
         SEXPECT(sched::forcedTimeouts() == forced, "interrupt() did not wake the thread up: it slept until its time was over");
         sched::note("interrupt has returned");
         SEXPECT(runs == starts, "interrupt() has returned: the body ran %d times for %d starts", runs, starts);
         SEXPECT(ends == starts, "interrupt() returned before the body had ended");
         SEXPECT(!isAlive(), "isAlive() after interrupt()");
      }
      void doWake()
      {
         sched::note("wakeUp");
         wakes++;
         wakeUp();
         wakesDone++;
      }
   };
   sched::Bounds bounds(int quick, int thor, int fails = 0)
   {
      sched::Bounds b;
      b.preemptions = mc::tier(quick, thor);
      b.timeouts = 2;
      b.createFails = fails;
      b.maxPoints = 4000;
      return b;
   }
   void mid(Worker* w, int op)
   {
      switch(op)
      {
         case 0: break;
         case 1: w->doWake(); break;
         case 2: SEXPECT(w->isAlive() == (w->starts > 0 && !w->stopping), "isAlive() is wrong before interrupt()"); break;
         case 3: w->section(1000); break;
         case 4: sched::yield(false); break;
      }
   }
}

void defineScenarios()
{
   using namespace mc;
   mc::onWorkerStart([] { sched::setup([] { System::init(""); System::autoreleasePool(); for(int i = 0; i < 3; i++)try { throw Exception("warm up"); } catch(Exception&) {} }); });
   mc::assume("sequentially consistent memory; one controller calls start() and interrupt(); no spurious wake-ups; thread creation, mutexes and condition variables as POSIX specifies them");
   scenario("start, up to two calls, interrupt", {6, "6 bodies x {wakeUp, isAlive, lock+unlock, let run}^2; all schedules with up to 5 / 7 preemptions, time-outs at any moment"}, [](Ctx & c)
   {
      int kind = c.choose(kKinds), a = c.choose(5), b = a ? c.choose(5) : 0;
      c.step("body: %s", kNames[kind]);
      sched::run(c, bounds(5, 7), [&]
      {
         Worker* w = new Worker(kind);
         SEXPECT(!w->isAlive(), "isAlive() before start()");
         w->doStart();
         mid(w, a);
         mid(w, b);
         w->doInterrupt();
         c.state(fmt("%d %d %d", kind, w->counter, w->wakes));
         w->release();
      });
   });
   scenario("restarting", {6, "6 bodies twice, interrupt twice, interrupt before start; up to 4 / 5 preemptions"}, [](Ctx & c)
   {
      int kind = c.choose(kKinds), k2 = c.choose(kKinds), before = c.choose(2), twice = c.choose(2);
      sched::run(c, bounds(4, 5), [&]
      {
         Worker* w = new Worker(kind);
         if(before)w->doInterrupt();
         w->doStart();
         w->doInterrupt();
         if(twice)w->doInterrupt();
         w->kind = k2;
         w->doStart();
         w->doInterrupt();
         c.state(fmt("%d %d", kind, k2));
         w->release();
      });
   });
   scenario("no thread can be created", {6, "up to 2 of the creations fail, every choice; 6 bodies; up to 4 / 5 preemptions"}, [](Ctx & c)
   {
      int kind = c.choose(kKinds);
      sched::run(c, bounds(4, 5, 2), [&]
      {
         Worker* w = new Worker(kind);
         for(int i = 0; i < 3; i++)
         {
            w->doStart();
            w->doInterrupt();
         }
         c.state(fmt("%d %d", kind, w->starts));
         w->release();
      });
   });
   scenario("a helper wakes up and asks while the controller interrupts", {6, "6 bodies, helper does {wakeUp, isAlive, lock+unlock}^2; up to 4 / 5 preemptions"}, [](Ctx & c)
   {
      int kind = c.choose(kKinds), a = 1 + c.choose(3), b = 1 + c.choose(3);
      sched::run(c, bounds(4, 5), [&]
      {
         Worker* w = new Worker(kind);
         w->doStart();
         int h = sched::spawn([&]
         {
            int ops[] = {a, b};
            for(int o : ops)
            {
               if(o == 2)
               {
                  bool al = w->isAlive();
                  SEXPECT(al || w->stopping, "isAlive() is false although nobody interrupted");
               }
               else mid(w, o);
            }
         });
         w->doInterrupt();
         sched::join(h);
         c.state(fmt("%d %d", kind, w->counter));
         w->release();
      });
   });
   scenario("wakeUp wakes a sleeping thread, time wakes it too", {6, "bodies that sleep once; the controller waits until it sleeps; up to 4 / 6 preemptions"}, [](Ctx & c)
   {
      int kind = c.choose(2) ? kSleepMsOnce : kSleepOnce, wakes = kind == kSleepOnce || c.choose(2);
      auto b = bounds(4, 6);
      b.timeouts = 0;
      sched::run(c, b, [&]
      {
         Worker* w = new Worker(kind);
         w->doStart();
         while(!(w->fiber >= 0 && sched::blocked(w->fiber)))sched::yield();
         SEXPECT(w->resting, "the thread waits although it does not sleep");
         if(wakes)w->doWake();
         while(w->ends == 0)sched::yield();
         w->doInterrupt();
         c.state(fmt("%d %d", kind, wakes));
         w->release();
      });
   });
   scenario("length of sleep(ms)", {4, "every duration of 0..2100 ms and 16 up to a century x 7 fractions of the second at which it starts: the time-out asked for"}, [](Ctx & c)
   {
      static const long kStart[] = {0, 1, 499999, 500000, 900000, 999000, 999998};
      static const int64 kLong[] = {2147, 2148, 4294, 4295, 4296, 59999, 60000, 86400000, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 31536000000, 3153600000000};
      int64 ms = c.choose(2101 + 16);
      if(ms > 2100)ms = kLong[ms - 2101];
      long start = kStart[c.choose(7)];
      static int64 sms;
      sms = ms;
      struct S : public Thread
      {
         double left = -1e9;
         bool done = false;
         void run() override
         {
            sleep(sms);
            left = sched::deadline();
            done = true;
         }
      };
      auto b = bounds(0, 0);
      sched::startTime(start);
      sched::run(c, b, [&]
      {
         S* s = new S();
         s->start();
         while(!s->done)sched::yield();
         SEXPECT(s->left > sms / 1000.0 - 0.001 && s->left < sms / 1000.0 + 0.002, "sleep(%lld) waits for %.6f s when it is called %ld us after a second has begun", (long long)sms, s->left, start);
         s->interrupt();
         s->release();
      });
      sched::startTime(0);
      c.state(ms * 7 + start % 7);
   });
   scenario("names of threads and the main thread", {1, "8 names up to 40 characters given before the start, while the thread runs and after interrupt(); isMainThread()"}, [](Ctx & c)
   {
      static const char* const kName[] = {"", "a", "worker", "123456789012345", "1234567890123456", "a name with far more than sixteen letters", "\xc3\xa9t\xc3\xa9", "a\nb"};
      struct S : public Thread
      {
         std::atomic<int> tid{0};
         std::atomic<bool> main{true};
         void run() override
         {
            main = isMainThread();
            tid = (int)gettid();
            while(isAlive())sleep(1000);
         }
      };
      int before = c.choose(9), in = c.choose(9), after = c.choose(9);
      auto show = [&](int k)
      {
         return k == 8 ? "-" : kName[k];
      };
      c.step("before the start: %s, running: %s, afterwards: %s", show(before), show(in), show(after));
      EXPECT(c, Thread::isMainThread(), "isMainThread() in the main thread");
      S* s = new S();
      if(before < 8)s->setName(kName[before]);
      s->start();
      while(!s->tid)usleep(20);
      auto comm = [&]
      {
         char b[64] = "";
         FILE* f = fopen(mc::fmt("/proc/self/task/%d/comm", s->tid.load()).c_str(), "r");
         size_t n = f ? fread(b, 1, 63, f) : 0;
         if(f)fclose(f);
         return std::string(b, n > 0 ? n - 1 : 0);
      };
      std::string was = comm();
      if(in < 8)
      {
         s->setName(kName[in]);
         was = kName[in];
      }
      std::string is = comm();
      bool main = s->main;
      s->interrupt();
      if(after < 8)s->setName(kName[after]);
      s->release();
      EXPECT(c, is == was || (in < 8 && strlen(kName[in]) > 15), "the thread is called \"%s\" instead of \"%s\"", is.c_str(), was.c_str());
      EXPECT(c, !main, "isMainThread() in another thread");
      c.state(show(in));
   });
}
