// mc: tsan Object.cpp AutoreleasePool.cpp Mutex.cpp Thread.cpp
// mc: extra sched.cpp
// Reference counting and autorelease: every object is destroyed exactly once, after its last owner let go.
#include "lib.hpp"
#include "sched.hpp"
using namespace jm;
const char* const kProperty = "L01";

namespace
{
   const int kMax = 16;
   struct Mon
   {
      int owners[kMax]; // owners that have not let go yet
      int born[kMax], died[kMax];
      int n;
      void reset()
      {
         memset(this, 0, sizeof *this);
      }
   } M;

   struct Probe : public Object
   {
      int id;
      int child = -1; // destructor creates an object of this number and autoreleases it
      explicit Probe(int i): id(i)
      {
         M.born[i]++;
      }
      ~Probe() override;
   };
   Probe* O[kMax];
   Probe* make(int i, int owners = 1)
   {
      O[i] = new Probe(i);
      M.owners[i] = owners;
      for(int k = 1; k < owners; k++)O[i]->retain();
      return O[i];
   }
   Probe::~Probe()
   {
      sched::note("object %d destroyed", id);
      M.died[id]++;
      SEXPECT(M.died[id] == 1, "object %d destroyed twice", id);
      SEXPECT(M.owners[id] == 0, "object %d destroyed although %d owners still hold it", id, M.owners[id]);
      if(child >= 0)
      {
         make(child);
         M.owners[child]--; // the pool's from now on
         O[child]->autorelease();
      }
   }
   // An owner lets go: from the moment of the call the object may be gone.
   void letGo(int i)
   {
      sched::note("release object %d", i);
      M.owners[i]--;
      O[i]->release();
   }
   void later(int i)
   {
      sched::note("autorelease object %d", i);
      M.owners[i]--;
      O[i]->autorelease();
   }
   void hold(int i)
   {
      sched::note("retain object %d", i);
      O[i]->retain();
      M.owners[i]++;
   }
   void drain()
   {
      sched::note("drain");
      System::autoreleasePool()->drain();
   }
   void finish(mc::Ctx& c, size_t liveBefore, int expectObjects)
   {
      drain();
      int n = 0;
      for(int i = 0; i < kMax; i++)
      {
         if(!M.born[i])continue;
         n++;
         SEXPECT(M.died[i] == 1, "object %d was never destroyed", i);
      }
      SEXPECT(n == expectObjects, "%d objects instead of %d", n, expectObjects);
      SEXPECT(sched::liveBlocks() == liveBefore, "%zu memory blocks were never released", sched::liveBlocks() - liveBefore);
   }
   sched::Bounds bounds(int quick, int thor)
   {
      sched::Bounds b;
      b.preemptions = mc::tier(quick, thor);
      return b;
   }
   // one operation of a thread that owns `own` references to object 0 (and may autorelease private objects)
   int gPrivate;
   void op(int kind, int& own)
   {
      switch(kind)
      {
         case 0:
            if(own)letGo(0), own--;
            break;
         case 1:
            if(own)hold(0), own++;
            break;
         case 2:
            if(own)later(0), own--;
            break;
         case 3:
            drain();
            break;
         case 4:
         {
            int p = gPrivate++;
            make(p);
            later(p);
            break;
         }
         case 5:
         case 6:
            if(!own)break;
            sched::note("flag object 0: %d", kind == 5);
            O[0]->setHighBit(kind == 5);
            break;
      }
   }
   // concrete program of two threads, every schedule
   void program(mc::Ctx& c, sched::Bounds b, std::vector<std::vector<int>> threads, int objects = 1, int childOf0 = -1)
   {
      M.reset();
      gPrivate = 1;
      sched::run(c, b, [&]
      {
         size_t live = sched::liveBlocks();
         make(0, (int)threads.size());
         O[0]->child = childOf0;
         if(childOf0 >= 0)gPrivate = childOf0 + 1;
         int id[4];
         for(size_t t = 0; t < threads.size(); t++)
         {
            const std::vector<int>* prog = &threads[t];
            id[t] = sched::spawn([prog]
            {
               int own = 1;
               for(int k : *prog)op(k, own);
               while(own)letGo(0), own--;
            });
         }
         for(size_t t = 0; t < threads.size(); t++)sched::join(id[t]);
         int n = 0;
         for(int i = 0; i < kMax; i++)n += M.born[i] > 0;
         finish(c, live, n + (childOf0 >= 0 && !M.born[childOf0]));
         c.state(mc::fmt("%d %d", M.died[0], n));
      });
   }
}

void defineScenarios()
{
   using namespace mc;
   mc::onWorkerStart([] { sched::setup([] { System::init(""); System::autoreleasePool(); }); });
   mc::assume("sequentially consistent memory; accesses of the library outside Object, AutoreleasePool, Mutex, Thread are not preempted");
   scenario("two threads, every program of one operation each", {6, "{release, retain+release, autorelease, drain, autorelease a new object, flag, remove the flag} each; all schedules with up to 3 / 5 preemptions"}, [](Ctx & c)
   {
      int a = c.choose(7), b = c.choose(7);
      program(c, bounds(3, 5), {{a}, {b}});
   });
   scenario("two threads, every program of two operations each", {6, "as before; all schedules with up to 2 / 3 preemptions"}, [](Ctx & c)
   {
      int a = c.choose(5), a2 = c.choose(5), b = c.choose(5), b2 = c.choose(5);
      program(c, bounds(2, 3), {{a, a2}, {b, b2}});
   });
   scenario("three threads", {6, "every program of one operation each; all schedules with up to 2 / 3 preemptions"}, [](Ctx & c)
   {
      int a = c.choose(5), b = c.choose(5), d = c.choose(5);
      program(c, bounds(2, 3), {{a}, {b}, {d}});
   });
   scenario("a destructor that autoreleases", {6, "two threads; the shared object's destructor autoreleases a new object; up to 2 / 4 preemptions"}, [](Ctx & c)
   {
      int a = c.choose(5), b = c.choose(5);
      program(c, bounds(2, 4), {{a}, {b}}, 1, 8);
   });
   scenario("sequences on one thread", {4, "2 objects, retain/release/autorelease/drain, destructors that autorelease, an own pool; depth 7 / 9"}, [](Ctx & c)
   {
      M.reset();
      sched::Bounds b;
      b.preemptions = 0;
      int depth = tier(7, 9);
      int ops[16], child = c.choose(2);
      for(int i = 0; i < depth; i++)ops[i] = c.choose(8);
      sched::run(c, b, [&]
      {
         size_t live = sched::liveBlocks();
         make(0);
         make(1);
         if(child)O[0]->child = 2, O[1]->child = 3;
         int own[2] = {1, 1}, pooled[2] = {0, 0};
         for(int i = 0; i < depth; i++)
         {
            int o = ops[i];
            int x = o & 1;
            switch(o >> 1)
            {
               case 0:
                  if(own[x])letGo(x), own[x]--;
                  break;
               case 1:
                  if(own[x])hold(x), own[x]++;
                  break;
               case 2:
                  if(own[x])later(x), own[x]--, pooled[x]++;
                  break;
               case 3:
                  if(x == 0)
                  {
                     drain();
                     pooled[0] = pooled[1] = 0;
                  }
                  break;
            }
            for(int k = 0; k < 2; k++)
            {
               bool alive = own[k] + pooled[k] > 0;
               SEXPECT(M.died[k] == !alive, "object %d is %s", k, alive ? "destroyed although it is still owned" : "still there although nobody owns it");
               if(alive)SEXPECT(O[k]->referenceCount() == own[k] + pooled[k], "object %d: referenceCount() %d, expected %d", k, O[k]->referenceCount(), own[k] + pooled[k]);
            }
         }
         for(int k = 0; k < 2; k++)while(own[k])letGo(k), own[k]--;
         drain();
         finish(c, live, child ? 4 : 2);
         c.state(mc::hash(ops, sizeof(int) * depth));
      });
   });
   scenario("many objects", {0, "63 numbers up to 1025 of objects in one pool, autoreleased in order, with further owners, by chains of destructors, with drains in between; references counted up to that number"}, [](Ctx & c)
   {
      static int born, died;
      struct Link : public Object
      {
         int rest;
         explicit Link(int r): rest(r)
         {
            born++;
         }
         ~Link() override
         {
            died++;
            if(rest > 0)(new Link(rest - 1))->autorelease();
         }
      };
      int n = lengths()[c.choose((int)lengths().size())], how = c.choose(5);
      born = died = 0;
      sched::Bounds b;
      b.preemptions = 0;
      b.maxPoints = 1000000;
      sched::run(c, b, [&]
      {
         size_t live = sched::liveBlocks();
         int want = n;
         if(how == 0)
         {
            for(int i = 0; i < n; i++)(new Link(0))->autorelease();
            SEXPECT(died == 0, "%d objects destroyed before the pool was drained", died);
         }
         else if(how == 1)
         {
            // a chain: every destructor autoreleases the next one
            if(n)(new Link(n - 1))->autorelease();
         }
         else if(how == 2)
         {
            for(int i = 0; i < n; i++)
            {
               (new Link(0))->autorelease();
               if(i % 10 == 9)
               {
                  drain();
                  SEXPECT(died == i + 1, "%d of %d destroyed", died, i + 1);
               }
            }
         }
         else if(how == 3)
         {
            // one object with n further owners
            want = 1;
            Link* o = new Link(0);
            for(int i = 0; i < n; i++)o->retain();
            SEXPECT(o->referenceCount() == n + 1, "referenceCount() %d, expected %d", (int)o->referenceCount(), n + 1);
            for(int i = 0; i < n; i++)
            {
               if(i % 2)o->release();
               else o->autorelease();
            }
            drain();
            SEXPECT(died == 0 && o->referenceCount() == 1, "%d owners let go, one is left: referenceCount() %d", n, (int)o->referenceCount());
            o->release();
            SEXPECT(died == 1, "the last owner let go");
         }
         else
         {
            // destroyed while still in use elsewhere: every second one is kept
            std::vector<Link*> kept;
            for(int i = 0; i < n; i++)
            {
               Link* o = new Link(0);
               if(i % 2)
               {
                  o->retain();
                  kept.push_back(o);
               }
               o->autorelease();
            }
            drain();
            SEXPECT(died == n - (int)kept.size(), "%d destroyed, %zu kept", died, kept.size());
            for(Link* o : kept)o->release();
         }
         drain();
         SEXPECT(born == want && died == want, "%d created, %d destroyed, expected %d", born, died, want);
         SEXPECT(sched::liveBlocks() == live, "%zu memory blocks were never released", sched::liveBlocks() - live);
         c.state(n * 8 + how);
      });
      c.trans(n);
   });
   scenario("flags, copies and assignments", {3, "2 objects, flag on, flag off, retain, release, autorelease and drain, one assigned to the other, a copy made and released; depth 6 / 8"}, [](Ctx & c)
   {
      M.reset();
      sched::Bounds b;
      b.preemptions = 0;
      int depth = tier(6, 8);
      int ops[16];
      for(int i = 0; i < depth; i++)ops[i] = c.choose(10);
      sched::run(c, b, [&]
      {
         size_t live = sched::liveBlocks();
         make(0);
         make(1);
         int own[2] = {1, 1}, copies = 0;
         int flag[2] = {0, 0};
         for(int i = 0; i < depth; i++)
         {
            int o = ops[i], x = o & 1;
            if(!own[x])continue;
            switch(o >> 1)
            {
               case 0:
                  flag[x] = !flag[x];
                  sched::note("flag object %d: %d", x, flag[x]);
                  O[x]->setHighBit(flag[x]);
                  break;
               case 1:
                  if(flag[x])letGo(x), own[x]--;
                  else hold(x), own[x]++;
                  break;
               case 2:
                  if(own[x] > 1 || flag[x])later(x), own[x]--, drain();
                  else hold(x), own[x]++;
                  break;
               case 3:
                  if(!own[1 - x])break;
                  sched::note("object %d = object %d", x, 1 - x);
                  *static_cast<Object*>(O[x]) = *static_cast<Object*>(O[1 - x]);
                  break;
               case 4:
               {
                  int id = 2 + copies++;
                  sched::note("object %d is a copy of object %d", id, x);
                  O[id] = new Probe(*O[x]);
                  O[id]->id = id;
                  M.born[id]++;
                  M.owners[id] = 1;
                  SEXPECT(O[id]->referenceCount() == 1, "the copy of an object with %d owners: referenceCount() %d", own[x], O[id]->referenceCount());
                  letGo(id);
                  SEXPECT(M.died[id] == 1, "the released copy of an object with %d owners is still there", own[x]);
                  break;
               }
            }
            for(int k = 0; k < 2; k++)
            {
               SEXPECT(M.died[k] == !own[k], "object %d is %s", k, own[k] ? "destroyed although it is still owned" : "still there although nobody owns it");
               if(!own[k])continue;
               SEXPECT(O[k]->referenceCount() == own[k], "object %d: referenceCount() %d, expected %d", k, O[k]->referenceCount(), own[k]);
               SEXPECT(O[k]->highBit() == (flag[k] != 0), "object %d: highBit() %d, expected %d", k, O[k]->highBit(), flag[k]);
            }
         }
         for(int k = 0; k < 2; k++)while(own[k])letGo(k), own[k]--;
         finish(c, live, 2 + copies);
         c.state(mc::hash(ops, sizeof(int) * depth));
      });
   });
}
