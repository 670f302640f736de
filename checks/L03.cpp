// mc: tsan Object.cpp AutoreleasePool.cpp Mutex.cpp Thread.cpp System.cpp String.cpp
// mc: extra sched.cpp
// Mutex: mutual exclusion, sleeping and waking; the log built on it.
#include "lib.hpp"
#include "sched.hpp"
#include <iostream>
#include <streambuf>
using namespace jm;
const char* const kProperty = "L03";

namespace
{
   sched::Bounds bounds(int quick, int thor)
   {
      sched::Bounds b;
      b.preemptions = mc::tier(quick, thor);
      b.timeouts = 0;
      b.maxPoints = 20000;
      return b;
   }
   struct World
   {
      Mutex m[2];
      int inside[2] = {0, 0};
      int value[2] = {0, 0};
      int sleeping = 0, woken = 0; // threads that called sleep() / came back from it
      int wakes = 0;
      void enter(int k)
      {
         sched::note("lock %d", k);
         m[k].lock();
         SEXPECT(inside[k] == 0, "two threads are between lock() and unlock()");
         inside[k]++;
      }
      void leave(int k)
      {
         inside[k]--;
         sched::note("unlock %d", k);
         m[k].unlock();
      }
      void section(int k)
      {
         enter(k);
         int v = value[k];
         sched::point("section");
         value[k] = v + 1;
         leave(k);
      }
      void doSleep(int k)
      {
         sched::note("sleep");
         sleeping++;
         m[k].sleep();
         woken++;
         SEXPECT(woken <= wakes, "sleep() came back without a wake-up");
      }
      void doWake(int k)
      {
         sched::note("wakeUp");
         wakes++;
         m[k].wakeUp();
      }
   };
   // every program of two steps: 0 section on 0, 1 section on 1, 2 both nested, 3 nothing
   void step(World& w, int k, int* count)
   {
      switch(k)
      {
         case 0: w.section(0); count[0]++; break;
         case 1: w.section(1); count[1]++; break;
         case 2:
            w.enter(0);
            sched::point("nested");
            w.section(1);
            count[1]++;
            w.leave(0);
            break;
      }
   }
   struct Capture : public std::streambuf
   {
      char text[4096];
      size_t n = 0;
      int overflow(int c) override
      {
         sched::point("output");
         if(n < sizeof text)text[n++] = (char)c;
         return c;
      }
      std::streamsize xsputn(const char* s, std::streamsize k) override
      {
         sched::point("output");
         for(std::streamsize i = 0; i < k; i++)if(n < sizeof text)text[n++] = s[i];
         return k;
      }
   };
}

void defineScenarios()
{
   using namespace mc;
   mc::onWorkerStart([] { sched::setup([] { System::init(""); System::autoreleasePool(); }); });
   mc::assume("sequentially consistent memory; no spurious wake-ups; mutexes and condition variables as POSIX specifies them");
   scenario("sections protected by two mutexes", {6, "2-3 threads x every program of two sections (first mutex, second mutex, nested); all schedules with up to 4 (3 threads: 3) / 6 (4) preemptions"}, [](Ctx & c)
   {
      int n = 2 + c.choose(2), prog[3][2];
      for(int i = 0; i < n; i++)
      {
         prog[i][0] = c.choose(3);
         prog[i][1] = n == 2 || i == 0 ? c.choose(4) : 3;
      }
      sched::run(c, bounds(n == 2 ? 4 : 3, n == 2 ? 6 : 4), [&]
      {
         World* w = new World;
         int id[3], count[2] = {0, 0};
         for(int i = 0; i < n; i++)id[i] = sched::spawn([&, i] {for(int k : prog[i])step(*w, k, count);});
         for(int i = 0; i < n; i++)sched::join(id[i]);
         SEXPECT(w->value[0] == count[0] && w->value[1] == count[1], "an update got lost");
         c.state(fmt("%d %d %d", n, count[0], count[1]));
         delete w;
      });
   });
   scenario("sleeping threads wait for one wake-up each and leave the mutex free", {6, "1-2 sleepers, another thread that uses the mutex meanwhile, wake-ups by the controller; up to 3 / 4 preemptions"}, [](Ctx & c)
   {
      int n = 1 + c.choose(2), uses = c.choose(3), both = c.choose(2);
      sched::run(c, bounds(3, 4), [&]
      {
         World* w = new World;
         int id[3];
         for(int i = 0; i < n; i++)id[i] = sched::spawn([&]
         {
            w->doSleep(0);
            w->section(0);
         });
         int user = sched::spawn([&] {for(int k = 0; k < uses; k++)w->section(0);});
         for(int k = 0; k < n; k++)
         {
            // wait until everybody who has to sleep does
            while(true)
            {
               int asleep = 0;
               for(int i = 0; i < n; i++)asleep += sched::blocked(id[i]);
               if(asleep == n - k)break;
               sched::yield();
            }
            w->section(0); // the sleepers do not hold the mutex
            if(both)w->doWake(1);
            if(both)w->wakes--;
            w->doWake(0);
            while(w->woken != k + 1)sched::yield();
         }
         for(int i = 0; i < n; i++)sched::join(id[i]);
         sched::join(user);
         SEXPECT(w->value[0] == 2 * n + uses, "an update got lost");
         c.state(fmt("%d %d %d", n, uses, both));
         delete w;
      });
   });
   scenario("messages of several threads in the log", {6, "2 threads log 1-2 messages of different levels each, labels and dates switched on and off; up to 1 / 2 preemptions"}, [](Ctx & c)
   {
      int lev[2][2], k = c.choose(2);
      for(int i = 0; i < 2; i++)lev[i][0] = c.choose(5), lev[i][1] = k && i ? c.choose(3) : 5;
      static Capture* cap = new Capture();
      cap->n = 0;
      std::streambuf* old = std::cout.rdbuf(cap);
      struct Back
      {
         std::streambuf* b;
         ~Back()
         {
            std::cout.rdbuf(b);
         }
      } back{old};
      sched::run(c, bounds(1, 2), [&]
      {
         System::logEnableDate(false);
         int id[2], printed = 0, errors = 0;
         const LogLevel levels[] = {LogLevel::kError, LogLevel::kWarning, LogLevel::kInformation};
         for(int i = 0; i < 2; i++)id[i] = sched::spawn([&, i]
         {
            for(int j = 0; j < 2; j++)
            {
               int l = lev[i][j];
               if(l < 3)System::log(String(i ? "from the second thread" : "from the first thread"), levels[l]);
               else if(l == 3)System::logEnableLabel(LogLevel::kError);
               else if(l == 4)System::logEnableLabel(LogLevel::kDebug);
            }
         });
         for(int i = 0; i < 2; i++)
         {
            sched::join(id[i]);
            for(int j = 0; j < 2; j++)if(lev[i][j] < 3)printed++, errors += lev[i][j] == 0;
         }
         std::string t(cap->text, cap->n);
         size_t lines = 0, at = 0, whole = 0;
         while(at < t.size())
         {
            size_t e = t.find('\n', at);
            SEXPECT(e != std::string::npos, "a message without line end in the log");
            std::string l = t.substr(at, e - at);
            int in = (l.find("from the first thread") != std::string::npos) + (l.find("from the second thread") != std::string::npos);
            SEXPECT(in == 1, "a line of the log with %d messages", in);
            whole += in;
            lines++;
            at = e + 1;
         }
         SEXPECT(lines == (size_t)printed && whole == lines, "%d messages were logged, the log has %zu lines with %zu messages", printed, lines, whole);
         if(errors)
         {
            String m = System::lastErrorMessage();
            SEXPECT((lev[0][0] == 0 && m == String("from the first thread")) || ((lev[1][0] == 0 || lev[1][1] == 0) && m == String("from the second thread")),
                    "lastErrorMessage() is none of the messages");
         }
         c.state(fmt("%d %d %d", lev[0][0], lev[1][0], lev[1][1]));
      });
   });
}
