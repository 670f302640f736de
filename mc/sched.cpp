#include "sched.hpp"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#define __cxa_guard_acquire declaredGuardAcquire
#define __cxa_guard_release declaredGuardRelease
#define __cxa_guard_abort declaredGuardAbort
#include <cxxabi.h>
#undef __cxa_guard_acquire
#undef __cxa_guard_release
#undef __cxa_guard_abort
#include <dlfcn.h>
#include <exception>
#include <map>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unordered_map>
#include <vector>
#include <cerrno>

extern "C" void sched_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
   pushq %rbp
   pushq %rbx
   pushq %r12
   pushq %r13
   pushq %r14
   pushq %r15
   movq %rsp, (%rdi)
   movq %rsi, %rsp
   popq %r15
   popq %r14
   popq %r13
   popq %r12
   popq %rbx
   popq %rbp
   ret
)");

namespace
{
   const int kMaxFibers = 8;
   const size_t kStack = 256 * 1024;
   const size_t kArena = 64 << 20;
   const size_t kGran = 16;

   enum State { kFree, kRun, kMutex, kCond, kJoin, kDone };
   struct Fiber
   {
      State st = kFree;
      char* stack = nullptr;
      void* sp = nullptr;
      std::function<void()> fn;
      void* (*entry)(void*) = nullptr;
      void* arg = nullptr;
      void* mutex = nullptr;   // waited for (kMutex) / to be re-acquired (kCond)
      void* cond = nullptr;
      bool timed = false, timedOut = false, joined = false;
      int joinTarget = -1;
      timespec until = {0, 0};
   };
   Fiber F[kMaxFibers];
   int gN = 0, gCur = -1;
   void* gMainSp = nullptr;
   mc::Ctx* C = nullptr;
   sched::Bounds B;
   int gPre = 0, gTo = 0, gPoints = 0, gForced = 0, gCreateFails = 0, gCreates = 0;
   bool gActive = false; // a fiber of the program is running (not the scheduler)
   char gFail[4096];
   bool gFailed = false;
   timespec gDeadline;
   // The clock of an execution: it stands still, but for a microsecond whenever it is looked at, and for a
   // time-out, which moves it to the time that was waited for. Thus, executions can be repeated.
   timespec gNow;
   timespec gStart = {1700000000, 0};
   void tick()
   {
      gNow.tv_nsec += 1000;
      if(gNow.tv_nsec >= 1000000000L)
      {
         gNow.tv_nsec -= 1000000000L;
         gNow.tv_sec++;
      }
   }
   std::exception_ptr gExc;
   struct MutexState
   {
      void* addr;
      int owner; // -1: free
   };
   MutexState gMutex[256];
   int gMutexN = 0;

   char* gArena = nullptr;
   uint8_t* gGran = nullptr;   // 0 never allocated, 1 live, 2 freed, 3 live start... see below
   uint32_t* gSize = nullptr;  // size at the first granule of a block
   size_t gTop = 0, gLive = 0;

   struct InSched
   {
      bool was = gActive;
      InSched()
      {
         gActive = false;
      }
      ~InSched()
      {
         gActive = was;
      }
   };

   void toMain()
   {
      void* dummy;
      gActive = false;
      sched_switch(&dummy, gMainSp);
      abort();
   }
   void failNow(const char* f, ...)
   {
      gActive = false;
      va_list ap;
      va_start(ap, f);
      vsnprintf(gFail, sizeof gFail, f, ap);
      va_end(ap);
      gFailed = true;
      toMain();
   }

   // --- races: vector clocks of the threads and of everything they synchronise by, and for each byte of memory
   // the last write and the last read of each thread
   const int kClocks = kMaxFibers;
   struct Clock
   {
      uint16_t t[kClocks];
   };
   Clock gVC[kMaxFibers];
   std::map<const void*, Clock>* gSync = nullptr;
   struct Cell
   {
      uint16_t w;
      uint8_t wt;
      uint16_t r[4];
   };
   Cell* gShadow = nullptr; // of the arena
   std::unordered_map<const void*, Cell>* gOther = nullptr;
   unsigned long gAccesses = 0;
   void joinClock(Clock& a, const Clock& b)
   {
      for(int i = 0; i < kClocks; i++)if(b.t[i] > a.t[i])a.t[i] = b.t[i];
   }
   void hbAcquire(const void* a)
   {
      if(!B.races)return;
      auto it = gSync->find(a);
      if(it != gSync->end())joinClock(gVC[gCur], it->second);
   }
   void hbRelease(const void* a)
   {
      if(!B.races)return;
      joinClock((*gSync)[a], gVC[gCur]);
      gVC[gCur].t[gCur]++;
   }
   void hbCreate(int id)
   {
      if(!B.races)return;
      gVC[id] = gVC[gCur];
      gVC[id].t[id] = 1;
      gVC[gCur].t[gCur]++;
   }
   void hbJoin(int id)
   {
      if(B.races)joinClock(gVC[gCur], gVC[id]);
   }

   MutexState& mutexOf(void* a)
   {
      for(int i = 0; i < gMutexN; i++)if(gMutex[i].addr == a)return gMutex[i];
      if(gMutexN == 256)failNow("too many mutexes");
      gMutex[gMutexN] = {a, -1};
      return gMutex[gMutexN++];
   }
   bool enabled(int t)
   {
      Fiber& f = F[t];
      switch(f.st)
      {
         case kRun: return true;
         case kMutex: return mutexOf(f.mutex).owner < 0;
         case kJoin: return F[f.joinTarget].st == kDone;
         default: return false;
      }
   }
   // Exceptions of the explorer (end of a subtree, budget) leave a fiber through the scheduler only: the
   // pthread functions below are noexcept for their callers.
   int pick(int n)
   {
      int r = 0;
      bool ok = false;
      try
      {
         r = C->choose(n);
         ok = true;
      }
      catch(...)
      {
         gExc = std::current_exception();
      }
      if(!ok)toMain();
      return r;
   }
   extern "C" void* __libc_malloc(size_t);
   struct EhGlobals
   {
      void* caught;
      unsigned int uncaught;
   };
   EhGlobals gEh[kMaxFibers], gEhMain;
   EhGlobals* eh()
   {
      return (EhGlobals*)abi::__cxa_get_globals();
   }
   void switchTo(int t)
   {
      if(t == gCur)return;
      int from = gCur;
      gCur = t;
      gEh[from] = *eh();
      *eh() = gEh[t];
      if(C->verbose)C->step("   -- thread %d", t);
      sched_switch(&F[from].sp, F[t].sp);
   }
   void fireTimeout(int t)
   {
      Fiber& f = F[t];
      if(gNow.tv_sec < f.until.tv_sec || (gNow.tv_sec == f.until.tv_sec && gNow.tv_nsec < f.until.tv_nsec))gNow = f.until;
      f.timedOut = true;
      f.st = kMutex;
      f.cond = nullptr;
      if(C->verbose)C->step("   -- time-out in thread %d", t);
   }
   // the current fiber cannot go on (or is done): somebody else has to
   void reschedule()
   {
      int cand[kMaxFibers], n = 0;
      for(int i = 0; i < gN; i++)if(enabled(i))cand[n++] = i;
      int extra[kMaxFibers], m = 0;
      for(int i = 0; i < gN; i++)if(F[i].st == kCond && F[i].timed && (n == 0 || gTo > 0))extra[m++] = i;
      if(n + m == 0)
      {
         char b[1024];
         int k = 0;
         for(int i = 0; i < gN; i++)
         {
            const char* w = F[i].st == kMutex ? "waits for a mutex" : F[i].st == kCond ? "sleeps" : F[i].st == kJoin ? "waits for the end of a thread" : "has ended";
            k += snprintf(b + k, sizeof b - k, "%sthread %d %s", i ? ", " : "", i, w);
            if(F[i].st == kMutex)k += snprintf(b + k, sizeof b - k, " (held by %d)", mutexOf(F[i].mutex).owner);
         }
         failNow("nothing can go on any more: %s", b);
      }
      int r = n + m > 1 ? pick(n + m) : 0;
      int t;
      if(r < n)t = cand[r];
      else
      {
         t = extra[r - n];
         if(n > 0)gTo--;
         else gForced++;
         fireTimeout(t);
         if(!enabled(t))return reschedule();
      }
      switchTo(t);
   }
   // schedule point of a fiber that can go on
   void pointImpl()
   {
      if(++gPoints > B.maxPoints)failNow("no progress after %d steps", B.maxPoints);
      if(gN == 1)return;
      int cand[kMaxFibers], n = 0;
      if(gPre > 0)for(int i = 0; i < gN; i++)if(i != gCur && enabled(i))cand[n++] = i;
      int extra[kMaxFibers], m = 0;
      if(gTo > 0 && gPre > 0)for(int i = 0; i < gN; i++)if(F[i].st == kCond && F[i].timed)extra[m++] = i;
      if(n + m == 0)return;
      int r = pick(1 + n + m);
      if(r == 0)return;
      gPre--;
      if(r <= n)
      {
         switchTo(cand[r - 1]);
         return;
      }
      gTo--;
      int t = extra[r - 1 - n];
      fireTimeout(t);
      if(enabled(t))switchTo(t);
   }
   // waits until the current fiber, whose state has been set to a waiting one, is scheduled again
   void waitHere()
   {
      reschedule();
   }
   void acquire(void* m)
   {
      while(mutexOf(m).owner >= 0)
      {
         F[gCur].st = kMutex;
         F[gCur].mutex = m;
         waitHere();
         F[gCur].st = kRun;
      }
      mutexOf(m).owner = gCur;
      hbAcquire(m);
   }
   extern "C" void sched_entry()
   {
      Fiber& f = F[gCur];
      int me = gCur;
      gActive = true;
      bool thrown = false;
      try
      {
         if(f.entry)f.entry(f.arg);
         else f.fn();
      }
      catch(...)
      {
         gActive = false;
         gExc = std::current_exception();
         thrown = true;
      }
      gActive = false;
      if(thrown)toMain();
      if(me == 0)toMain();
      f.st = kDone;
      reschedule();
      abort();
   }
   int newFiber()
   {
      if(gN == kMaxFibers)failNow("too many threads");
      int id = gN++;
      Fiber& f = F[id];
      char* keep = f.stack;
      f = Fiber();
      f.stack = keep;
      if(!f.stack)
      {
         f.stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      }
      void** sp = (void**)(f.stack + kStack - 64);
      *--sp = nullptr;                 // return address of sched_entry
      *--sp = (void*)sched_entry;      // popped by ret; rsp % 16 == 8 at its entry
      for(int i = 0; i < 6; i++)*--sp = nullptr;
      f.sp = sp;
      f.st = kRun;
      gEh[id] = EhGlobals();
      return id;
   }

   inline bool onStack(const void* a)
   {
      char* p = (char*)a;
      return p >= F[gCur].stack && p < F[gCur].stack + kStack;
   }
   // the function of an address of code
   std::string function(void* pc)
   {
      Dl_info d;
      char* name = nullptr;
      if(dladdr(pc, &d) && d.dli_sname)name = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, nullptr);
      std::string r = name ? name : d.dli_sname ? d.dli_sname : "?";
      ::free(name);
      return r;
   }
   void checkArena(const void* a, size_t n, bool write, void* pc = nullptr)
   {
      size_t off = (size_t)((char*)a - gArena);
      if(off >= kArena)return;
      size_t g = off / kGran;
      if(gGran[g] == 1)return;
      failNow("thread %d %s memory of an object that has been destroyed%s", gCur, write ? "writes to" : "reads", B.races && pc ? (" (in " + function(pc) + ")").c_str() : "");
   }
   // what lies in memory that has just been allocated must have been initialised (all zero is initialised too)
   void checkInit(const void* a, const char* what)
   {
      if((size_t)((char*)a - gArena) >= kArena)return;
      const uint32_t* w = (const uint32_t*)a;
      if(w[0] == 0xCDCDCDCDu)failNow("thread %d uses %s that has not been initialised", gCur, what);
   }
   extern "C" char __start_libbss[] __attribute__((weak));
   thread_local char gTls;
   void raced(const void* a, bool write, int other, bool otherWrote, void* pc);
   void raceAccess(const void* a, size_t n, bool write, void* pc)
   {
      const char* p = (const char*)a;
      for(int i = 0; i < kMaxFibers; i++)if(F[i].stack && p >= F[i].stack && p < F[i].stack + kStack)return;
      // variables of the thread: the fibers share one, threads would not
      if(p >= &gTls - 4096 && p < &gTls + 4096)return;
      gAccesses++;
      Clock& me = gVC[gCur];
      size_t off = (size_t)(p - gArena);
      for(size_t i = 0; i < n; i++)
      {
         Cell& c = off < kArena ? gShadow[off + i] : (*gOther)[p + i];
         if(c.w && c.wt != gCur && c.w > me.t[c.wt])raced(p + i, write, c.wt, true, pc);
         if(write)
         {
            for(int k = 0; k < 4; k++)if(k != gCur && c.r[k] > me.t[k])raced(p + i, write, k, false, pc);
            c.w = me.t[gCur];
            c.wt = (uint8_t)gCur;
         }
         else c.r[gCur] = me.t[gCur];
      }
   }
   inline __attribute__((always_inline)) void access(const void* a, size_t n, bool write)
   {
      if(!gActive)return;
      if(onStack(a))return;
      InSched s;
      if(B.races)
      {
         checkArena(a, n, write, __builtin_return_address(0));
         raceAccess(a, n, write, __builtin_return_address(0));
         return;
      }
      pointImpl();
      checkArena(a, n, write);
   }
   // an atomic operation: it synchronises
   inline void atomicAccess(const void* a, size_t n, bool write)
   {
      if(!B.races || !gActive)return access(a, n, write);
      if(onStack(a))return;
      InSched s;
      pointImpl();
      checkArena(a, n, write);
      hbAcquire(a);
      if(write)hbRelease(a);
   }
   // memory that has just been allocated by C: nobody has used it yet
   void forgetAccesses(const void* a, size_t n)
   {
      if(gOther && !gOther->empty())for(size_t i = 0; i < n; i++)gOther->erase((const char*)a + i);
   }

   void* arenaAlloc(size_t n)
   {
      if(!gArena)
      {
         gArena = (char*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         gGran = (uint8_t*)mmap(nullptr, kArena / kGran, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         gSize = (uint32_t*)mmap(nullptr, kArena / kGran * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      }
      size_t k = (n + kGran - 1) / kGran;
      if(k == 0)k = 1;
      if(gTop + k + 1 > kArena / kGran)failNow("arena exhausted");
      size_t at = gTop;
      gTop += k + 1; // one granule of red zone
      memset(gGran + at, 1, k);
      gGran[at + k] = 3;
      gSize[at] = (uint32_t)k;
      memset(gArena + at * kGran, 0xCD, k * kGran);
      gLive++;
      return gArena + at * kGran;
   }
   bool arenaFree(void* p)
   {
      if(!gArena)return false;
      size_t off = (size_t)((char*)p - gArena);
      if(off >= kArena)return false;
      size_t g = off / kGran;
      if(gGran[g] != 1 || !gSize[g])
      {
         if(C && gCur >= 0)failNow("thread %d destroys an object that has already been destroyed", gCur);
         return true;
      }
      memset(gGran + g, 2, gSize[g]);
      memset(p, 0xDD, gSize[g] * kGran);
      gSize[g] = 0;
      gLive--;
      return true;
   }
   void arenaReset()
   {
      if(gArena && gTop)
      {
         if(gShadow)memset(gShadow, 0, gTop * kGran * sizeof(Cell));
         memset(gGran, 0, gTop);
         memset(gSize, 0, gTop * 4);
      }
      gTop = gLive = 0;
   }
   // blocks of the library that exist before the executions: brought back to that state before each one
   struct Kept
   {
      char* p;
      size_t n;
      char* copy;
   };
   bool gSetup = false;
   // the library's static variables (check.py puts them into these sections)
   extern "C" char __start_libbss[] __attribute__((weak));
   extern "C" char __stop_libbss[] __attribute__((weak));
   extern "C" char __start_libdata[] __attribute__((weak));
   extern "C" char __stop_libdata[] __attribute__((weak));
   struct Range
   {
      char* from;
      size_t n;
      char* copy = nullptr;
   };
   Range gStatic[2] = {{__start_libbss, (size_t)(__stop_libbss - __start_libbss)}, {__start_libdata, (size_t)(__stop_libdata - __start_libdata)}};
   Kept gKept[8192];
   int gKeptN = 0;
   void raced(const void* a, bool write, int other, bool otherWrote, void* pc)
   {
      const char* where = "memory";
      for(auto& r : gStatic)if((char*)a >= r.from && (char*)a < r.from + r.n)where = "a static variable";
      if((size_t)((char*)a - gArena) < kArena)where = "an object";
      failNow("thread %d %s %s, which thread %d %s before; nothing orders them (in %s)", gCur, write ? "writes to" : "reads", where, other, otherWrote ? "wrote to" : "read",
              function(pc).c_str());
   }

   void* allocate(size_t n)
   {
      if(gActive)
      {
         InSched s;
         return arenaAlloc(n);
      }
      void* p = malloc(n ? n : 1);
      if(!p)abort();
      if(gSetup)
      {
         if(gKeptN == 8192)abort();
         gKept[gKeptN++] = {(char*)p, n, nullptr};
      }
      return p;
   }
   void deallocate(void* p)
   {
      if(!p)return;
      {
         InSched s;
         if(arenaFree(p))return;
      }
      if(gSetup)for(int i = 0; i < gKeptN; i++)if(gKept[i].p == p)
      {
         gKept[i] = gKept[--gKeptN];
         break;
      }
      // a block from before the execution may come back with the next reset
      if(gActive)return;
      if(!gSetup)for(int i = 0; i < gKeptN; i++)if(gKept[i].p == p)return;
      free(p);
   }
   template<class T> T real(const char* name)
   {
      return (T)dlsym(RTLD_NEXT, name);
   }
}

void* operator new(size_t n)
{
   return allocate(n);
}
void* operator new[](size_t n)
{
   return allocate(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
   return allocate(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
   return allocate(n);
}
void operator delete(void* p) noexcept
{
   deallocate(p);
}
void operator delete[](void* p) noexcept
{
   deallocate(p);
}
void operator delete(void* p, size_t) noexcept
{
   deallocate(p);
}
void operator delete[](void* p, size_t) noexcept
{
   deallocate(p);
}

void sched::setup(std::function<void()> f)
{
   gSetup = true;
   f();
   gSetup = false;
   for(int i = 0; i < gKeptN; i++)
   {
      gKept[i].copy = (char*)malloc(gKept[i].n + 1);
      memcpy(gKept[i].copy, gKept[i].p, gKept[i].n);
   }
   for(auto& r : gStatic)
   {
      r.copy = (char*)malloc(r.n + 1);
      memcpy(r.copy, r.from, r.n);
   }
}
void sched::warmUp(std::function<void()> f)
{
   f();
   for(int i = 0; i < gKeptN; i++)memcpy(gKept[i].p, gKept[i].copy, gKept[i].n);
   for(auto& r : gStatic)if(r.copy)memcpy(r.from, r.copy, r.n);
}
void sched::run(mc::Ctx& c, const Bounds& b, std::function<void()> body)
{
   C = &c;
   B = b;
   gN = 0;
   gPre = b.preemptions;
   gTo = b.timeouts;
   gCreateFails = b.createFails;
   gCreates = 0;
   gPoints = 0;
   gForced = 0;
   gNow = gStart;
   gFailed = false;
   gExc = nullptr;
   gMutexN = 0;
   arenaReset();
   for(int i = 0; i < gKeptN; i++)memcpy(gKept[i].p, gKept[i].copy, gKept[i].n);
   for(auto& r : gStatic)if(r.copy)memcpy(r.from, r.copy, r.n);
   if(b.races)
   {
      if(!gSync)gSync = new std::map<const void*, Clock>(), gOther = new std::unordered_map<const void*, Cell>();
      if(!gShadow)gShadow = (Cell*)mmap(nullptr, kArena * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      gSync->clear();
      gOther->clear();
      memset(gVC, 0, sizeof gVC);
      gAccesses = 0;
      gVC[0].t[0] = 1;
   }
   int id = newFiber();
   F[id].fn = body;
   gCur = id;
   gEhMain = *eh();
   *eh() = gEh[id];
   sched_switch(&gMainSp, F[id].sp);
   *eh() = gEhMain;
   gActive = false;
   gCur = -1;
   C = nullptr;
   c.trans(gPoints);
   if(gExc)
   {
      auto e = gExc;
      gExc = nullptr;
      std::rethrow_exception(e);
   }
   if(gFailed)c.fail("%s", gFail);
   for(int i = 1; i < gN; i++)if(F[i].st != kDone)c.fail("thread %d still runs at the end", i);
}
int sched::spawn(const std::function<void()>& f)
{
   InSched s;
   int id = newFiber();
   F[id].fn = f;
   hbCreate(id);
   return id;
}
void sched::join(int id)
{
   InSched s;
   pointImpl();
   if(F[id].st != kDone)
   {
      F[gCur].st = kJoin;
      F[gCur].joinTarget = id;
      waitHere();
      F[gCur].st = kRun;
   }
   F[id].joined = true;
   hbJoin(id);
}
void sched::point(const char*)
{
   if(!gActive)return;
   InSched s;
   pointImpl();
}
void sched::yield(bool must)
{
   InSched s;
   if(++gPoints > B.maxPoints)failNow("no progress after %d steps", B.maxPoints);
   int cand[kMaxFibers], n = 0;
   for(int i = 0; i < gN; i++)if(i != gCur && enabled(i))cand[n++] = i;
   if(n == 0)
   {
      // only time can help
      int extra[kMaxFibers], m = 0;
      for(int i = 0; i < gN; i++)if(F[i].st == kCond && F[i].timed)extra[m++] = i;
      if(m == 0 && must)failNow("thread %d waits for ever", gCur);
      if(m == 0)return;
      int t = extra[m > 1 ? pick(m) : 0];
      fireTimeout(t);
      if(enabled(t))switchTo(t);
      return;
   }
   switchTo(cand[n > 1 ? pick(n) : 0]);
}
void sched::fail(const char* f, ...)
{
   gActive = false;
   va_list ap;
   va_start(ap, f);
   vsnprintf(gFail, sizeof gFail, f, ap);
   va_end(ap);
   gFailed = true;
   toMain();
   abort();
}
void sched::note(const char* f, ...)
{
   if(!C || !C->verbose)return;
   InSched s;
   char b[512];
   va_list ap;
   va_start(ap, f);
   vsnprintf(b, sizeof b, f, ap);
   va_end(ap);
   C->step("%d: %s", gCur, b);
}
size_t sched::liveBlocks()
{
   return gLive;
}
unsigned long sched::accesses()
{
   return gAccesses;
}
int sched::forcedTimeouts()
{
   return gForced;
}
double sched::deadline()
{
   return (double)(gDeadline.tv_sec - gStart.tv_sec) + 1e-9 * (double)(gDeadline.tv_nsec - gStart.tv_nsec);
}
void sched::startTime(long micros)
{
   gStart.tv_nsec = micros * 1000;
}
int sched::self()
{
   return gCur;
}
bool sched::blocked(int id)
{
   return F[id].st == kCond;
}
int sched::threads()
{
   return gN;
}
int sched::createCalls()
{
   return gCreates;
}

// --- pthreads.  Outside an execution the real functions are used.
extern "C" {
#define OUTSIDE(ret, name, proto, args) \
   if(!gActive) { static auto realFn_ = real<ret (*) proto>(name); return realFn_ args; } InSched inSched;

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
   OUTSIDE(int, "pthread_mutex_init", (pthread_mutex_t*, const pthread_mutexattr_t*), (m, a))
   if(a)checkInit(a, "attributes of a mutex");
   mutexOf(m).owner = -1;
   memset(m, 0, sizeof *m);
   return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
   OUTSIDE(int, "pthread_mutex_destroy", (pthread_mutex_t*), (m))
   if(mutexOf(m).owner >= 0)failNow("thread %d destroys a locked mutex", gCur);
   return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
   OUTSIDE(int, "pthread_mutex_lock", (pthread_mutex_t*), (m))
   pointImpl();
   checkArena(m, 1, true);
   checkInit(m, "a mutex");
   acquire(m);
   if(C->verbose)C->step("%d: lock %p", gCur, (void*)((char*)m - gArena));
   return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
   OUTSIDE(int, "pthread_mutex_trylock", (pthread_mutex_t*), (m))
   pointImpl();
   checkInit(m, "a mutex");
   if(mutexOf(m).owner >= 0)return EBUSY;
   mutexOf(m).owner = gCur;
   hbAcquire(m);
   return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
   OUTSIDE(int, "pthread_mutex_unlock", (pthread_mutex_t*), (m))
   pointImpl();
   checkArena(m, 1, true);
   MutexState& s = mutexOf(m);
   if(s.owner != gCur)failNow("thread %d unlocks a mutex it does not hold", gCur);
   s.owner = -1;
   hbRelease(m);
   if(C->verbose)C->step("%d: unlock %p", gCur, (void*)((char*)m - gArena));
   return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
   OUTSIDE(int, "pthread_cond_init", (pthread_cond_t*, const pthread_condattr_t*), (c, a))
   if(a)checkInit(a, "attributes of a condition variable");
   memset(c, 0, sizeof *c);
   return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
   OUTSIDE(int, "pthread_cond_destroy", (pthread_cond_t*), (c))
   return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
   pointImpl();
   checkInit(c, "a condition variable");
   MutexState& s = mutexOf(m);
   if(s.owner != gCur)failNow("thread %d waits without holding the mutex", gCur);
   s.owner = -1;
   hbRelease(m);
   Fiber& f = F[gCur];
   f.st = kCond;
   f.cond = c;
   f.mutex = m;
   f.timed = timed;
   if(timed)f.until = gDeadline;
   f.timedOut = false;
   if(C->verbose)C->step("%d: waits%s", gCur, timed ? " (timed)" : "");
   waitHere();
   f.st = kRun;
   bool to = f.timedOut;
   acquire(m);
   if(C->verbose)C->step("%d: goes on%s", gCur, to ? " after the time-out" : "");
   return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
   OUTSIDE(int, "pthread_cond_wait", (pthread_cond_t*, pthread_mutex_t*), (c, m))
   return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
   OUTSIDE(int, "pthread_cond_timedwait", (pthread_cond_t*, pthread_mutex_t*, const struct timespec*), (c, m, t))
   if(t->tv_nsec < 0 || t->tv_nsec >= 1000000000L)return EINVAL;
   gDeadline = *t;
   return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
   OUTSIDE(int, "pthread_cond_clockwait", (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*), (c, m, k, t))
   if(t->tv_nsec < 0 || t->tv_nsec >= 1000000000L)return EINVAL;
   gDeadline = *t;
   return condWait(c, m, true);
}
int gettimeofday(struct timeval* t, void* z)
{
   OUTSIDE(int, "gettimeofday", (struct timeval*, void*), (t, z))
   tick();
   t->tv_sec = gNow.tv_sec;
   t->tv_usec = gNow.tv_nsec / 1000;
   return 0;
}
int clock_gettime(clockid_t k, struct timespec* t)
{
   OUTSIDE(int, "clock_gettime", (clockid_t, struct timespec*), (k, t))
   tick();
   *t = gNow;
   return 0;
}
time_t time(time_t* t)
{
   OUTSIDE(time_t, "time", (time_t*), (t))
   tick();
   if(t != nullptr)*t = gNow.tv_sec;
   return gNow.tv_sec;
}
static void wake(pthread_cond_t* c, bool all)
{
   int w[kMaxFibers], n = 0;
   for(int i = 0; i < gN; i++)if(F[i].st == kCond && F[i].cond == c)w[n++] = i;
   if(C->verbose)C->step("%d: %s (%d waiting)", gCur, all ? "broadcast" : "signal", n);
   if(n == 0)return;
   int k = all || n == 1 ? 0 : pick(n);
   for(int i = 0; i < n; i++)
   {
      if(!all && i != k)continue;
      F[w[i]].st = kMutex;
      F[w[i]].cond = nullptr;
   }
}
int pthread_cond_signal(pthread_cond_t* c)
{
   OUTSIDE(int, "pthread_cond_signal", (pthread_cond_t*), (c))
   pointImpl();
   checkArena(c, 1, true);
   checkInit(c, "a condition variable");
   wake(c, false);
   return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
   OUTSIDE(int, "pthread_cond_broadcast", (pthread_cond_t*), (c))
   pointImpl();
   checkArena(c, 1, true);
   checkInit(c, "a condition variable");
   wake(c, true);
   return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
   OUTSIDE(int, "pthread_create", (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*), (t, a, f, arg))
   pointImpl();
   gCreates++;
   if(gCreateFails > 0 && pick(2))
   {
      gCreateFails--;
      if(C->verbose)C->step("%d: pthread_create fails", gCur);
      *t = 0xdeadbeef;
      return EAGAIN;
   }
   int id = newFiber();
   F[id].entry = f;
   F[id].arg = arg;
   hbCreate(id);
   *t = (pthread_t)(0x1000 + id);
   if(C->verbose)C->step("%d: creates thread %d", gCur, id);
   pointImpl(); // the new thread may run before the caller goes on
   return 0;
}
int pthread_join(pthread_t t, void** r)
{
   OUTSIDE(int, "pthread_join", (pthread_t, void**), (t, r))
   pointImpl();
   long id = (long)t - 0x1000;
   if(id < 0 || id >= gN)failNow("thread %d joins a thread that does not exist", gCur);
   if(F[id].joined)failNow("thread %d joins thread %ld for the second time", gCur, id);
   F[id].joined = true;
   if(F[id].st != kDone)
   {
      F[gCur].st = kJoin;
      F[gCur].joinTarget = (int)id;
      waitHere();
      F[gCur].st = kRun;
   }
   hbJoin((int)id);
   if(r)*r = nullptr;
   if(C->verbose)C->step("%d: joined thread %ld", gCur, id);
   return 0;
}
int pthread_detach(pthread_t t)
{
   OUTSIDE(int, "pthread_detach", (pthread_t), (t))
   return 0;
}
void pthread_exit(void* r)
{
   if(!gActive)
   {
      static auto f = real<void (*)(void*)>("pthread_exit");
      f(r);
      abort();
   }
   gActive = false;
   if(gCur == 0)failNow("the first thread called pthread_exit");
   F[gCur].st = kDone;
   reschedule();
   abort();
}
pthread_t pthread_self()
{
   if(!gActive)
   {
      static auto f = real<pthread_t (*)()>("pthread_self");
      return f();
   }
   return (pthread_t)(0x1000 + gCur);
}

int pthread_once(pthread_once_t* o, void (*f)(void))
{
   OUTSIDE(int, "pthread_once", (pthread_once_t*, void (*)(void)), (o, f))
   pointImpl();
   acquire(o);
   // 2: done, as glibc has it
   if(*(volatile int*)o != 2)
   {
      gActive = true;
      f();
      gActive = false;
      *(volatile int*)o = 2;
   }
   mutexOf(o).owner = -1;
   hbRelease(o);
   return 0;
}
#define RWLOCK(name) \
   int name(pthread_rwlock_t* m) \
   { \
      OUTSIDE(int, #name, (pthread_rwlock_t*), (m)) \
      pointImpl(); \
      acquire(m); \
      return 0; \
   }
RWLOCK(pthread_rwlock_rdlock)
RWLOCK(pthread_rwlock_wrlock)
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
   OUTSIDE(int, "pthread_rwlock_unlock", (pthread_rwlock_t*), (m))
   pointImpl();
   if(mutexOf(m).owner != gCur)failNow("thread %d unlocks a lock it does not hold", gCur);
   mutexOf(m).owner = -1;
   hbRelease(m);
   return 0;
}
// local static variables: their initialisation is a section of its own
int __cxa_guard_acquire(char* g)
{
   if(!gActive)
   {
      static int (*f)(char*) = nullptr; // initialised statically: no guard
      if(!f)f = real<int (*)(char*)>("__cxa_guard_acquire");
      return f(g);
   }
   InSched s;
   pointImpl();
   if(*g == 0)acquire(g);
   if(*g)
   {
      if(mutexOf(g).owner == gCur)mutexOf(g).owner = -1;
      hbAcquire(g);
      return 0;
   }
   return 1;
}
void __cxa_guard_release(char* g)
{
   if(!gActive)
   {
      static void (*f)(char*) = nullptr;
      if(!f)f = real<void (*)(char*)>("__cxa_guard_release");
      return f(g);
   }
   InSched s;
   *g = 1;
   mutexOf(g).owner = -1;
   hbRelease(g);
   pointImpl();
}
void __cxa_guard_abort(char* g)
{
   if(!gActive)
   {
      static void (*f)(char*) = nullptr;
      if(!f)f = real<void (*)(char*)>("__cxa_guard_abort");
      return f(g);
   }
   InSched s;
   mutexOf(g).owner = -1;
   hbRelease(g);
}
// --- C functions with memory of their own: it is used like a variable all threads share
#define SHARED(r, p, n) if(gActive && (p))access((p), (n), true); return r;
struct tm* gmtime(const time_t* t)
{
   static struct tm* (*f)(const time_t*) = nullptr;
   if(!f)f = real<struct tm* (*)(const time_t*)>("gmtime");
   struct tm* r = f(t);
   SHARED(r, r, sizeof *r)
}
struct tm* localtime(const time_t* t)
{
   static struct tm* (*f)(const time_t*) = nullptr;
   if(!f)f = real<struct tm* (*)(const time_t*)>("localtime");
   struct tm* r = f(t);
   SHARED(r, r, sizeof *r)
}
char* asctime(const struct tm* t)
{
   static char* (*f)(const struct tm*) = nullptr;
   if(!f)f = real<char* (*)(const struct tm*)>("asctime");
   char* r = f(t);
   SHARED(r, r, 8)
}
char* ctime(const time_t* t)
{
   static char* (*f)(const time_t*) = nullptr;
   if(!f)f = real<char* (*)(const time_t*)>("ctime");
   char* r = f(t);
   SHARED(r, r, 8)
}
char* strtok(char* s, const char* d)
{
   static char* (*f)(char*, const char*) = nullptr;
   static char shared;
   if(!f)f = real<char* (*)(char*, const char*)>("strtok");
   char* r = f(s, d);
   SHARED(r, &shared, 1)
}
char* setlocale(int k, const char* n)
{
   static char* (*f)(int, const char*) = nullptr;
   static char shared;
   if(!f)f = real<char* (*)(int, const char*)>("setlocale");
   char* r = f(k, n);
   SHARED(r, &shared, 1)
}
int chdir(const char* d)
{
   static int (*f)(const char*) = nullptr;
   static char shared;
   if(!f)f = real<int (*)(const char*)>("chdir");
   int r = f(d);
   SHARED(r, &shared, 1)
}
int setenv(const char* n, const char* v, int o)
{
   static int (*f)(const char*, const char*, int) = nullptr;
   static char shared;
   if(!f)f = real<int (*)(const char*, const char*, int)>("setenv");
   int r = f(n, v, o);
   SHARED(r, &shared, 1)
}
// what C functions write to and read from
ssize_t read(int d, void* p, size_t n)
{
   static ssize_t (*f)(int, void*, size_t) = nullptr;
   if(!f)f = real<ssize_t (*)(int, void*, size_t)>("read");
   ssize_t r = f(d, p, n);
   if(gActive && r > 0)access(p, (size_t)r, true);
   return r;
}
size_t fread(void* p, size_t s, size_t n, FILE* h)
{
   static size_t (*f)(void*, size_t, size_t, FILE*) = nullptr;
   if(!f)f = real<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
   size_t r = f(p, s, n, h);
   if(gActive && r > 0)access(p, r * s, true);
   return r;
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* h)
{
   static size_t (*f)(const void*, size_t, size_t, FILE*) = nullptr;
   if(!f)f = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
   if(gActive && n > 0)access(p, n * s, false);
   return f(p, s, n, h);
}
int vsnprintf(char* p, size_t n, const char* form, va_list ap)
{
   static int (*f)(char*, size_t, const char*, va_list) = nullptr;
   if(!f)f = real<int (*)(char*, size_t, const char*, va_list)>("vsnprintf");
   int r = f(p, n, form, ap);
   if(gActive && r >= 0 && n > 0)access(p, (size_t)r < n ? (size_t)r + 1 : n, true);
   return r;
}
int snprintf(char* p, size_t n, const char* form, ...)
{
   va_list ap;
   va_start(ap, form);
   int r = vsnprintf(p, n, form, ap);
   va_end(ap);
   return r;
}
int sprintf(char* p, const char* form, ...)
{
   va_list ap;
   va_start(ap, form);
   int r = vsnprintf(p, 1 << 30, form, ap);
   va_end(ap);
   return r;
}
size_t strftime(char* p, size_t n, const char* form, const struct tm* t)
{
   static size_t (*f)(char*, size_t, const char*, const struct tm*) = nullptr;
   if(!f)f = real<size_t (*)(char*, size_t, const char*, const struct tm*)>("strftime");
   size_t r = f(p, n, form, t);
   if(gActive && r > 0)access(p, r + 1, true);
   return r;
}
void* malloc(size_t n)
{
   void* p = __libc_malloc(n);
   if(gActive && B.races && p)forgetAccesses(p, n);
   return p;
}

// --- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
   void __tsan_read##n(void* a) { access(a, n, false); } \
   void __tsan_write##n(void* a) { access(a, n, true); } \
   void __tsan_unaligned_read##n(void* a) { access(a, n, false); } \
   void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
   void __tsan_read_write##n(void* a) { access(a, n, true); } \
   void __tsan_unaligned_read_write##n(void* a) { access(a, n, true); } \
   void __tsan_volatile_read##n(void* a) { access(a, n, false); } \
   void __tsan_volatile_write##n(void* a) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void*)
{
   access(a, 8, true);
}
void __tsan_vptr_read(void** a)
{
   access(a, 8, false);
}
void __tsan_read_range(void* a, unsigned long n)
{
   access(a, n, false);
}
void __tsan_write_range(void* a, unsigned long n)
{
   access(a, n, true);
}
void* __tsan_memcpy(void* d, const void* s, unsigned long n)
{
   access(s, n, false);
   access(d, n, true);
   return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n)
{
   access(s, n, false);
   access(d, n, true);
   return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n)
{
   access(d, n, true);
   return memset(d, v, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_atomic_thread_fence(int)
{
   if(gActive)
   {
      InSched s;
      pointImpl();
   }
}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
   T __tsan_atomic##bits##_load(const volatile T* a, int) { atomicAccess((void*)a, sizeof(T), false); return *a; } \
   void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); *a = v; } \
   T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; *a = v; return o; } \
   T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
   T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
   T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
   T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
   T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
   T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
   int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { atomicAccess((void*)a, sizeof(T), true); if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
   int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { atomicAccess((void*)a, sizeof(T), true); if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
   T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { atomicAccess((void*)a, sizeof(T), true); T o = *a; if(o == e)*a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
