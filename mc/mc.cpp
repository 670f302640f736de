#include "mc.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
   const int kMaxChoices = 1 << 14;
   const int kMaxScen = 96;
   const uint32_t kClaims = 1 << 21;

   struct Slot // one per worker
   {
      std::atomic<uint64_t> beat;
      std::atomic<int> scen;
      std::atomic<int> n;
      std::atomic<int> running; // inside an execution
      std::atomic<double> since; // start of this execution
      uint16_t choice[kMaxChoices];
      char msg[8192];
      char key[512];
      int failed;
   };
   struct ScenStat
   {
      std::atomic<uint64_t> execs;
      std::atomic<uint64_t> discarded;
      std::atomic<uint64_t> trans;
      std::atomic<uint64_t> maxChoices;
      std::atomic<uint64_t> done; // workers that enumerated to the end
      std::atomic<int> nsample;
      struct
      {
         int n;
         uint16_t c[64];
      } sample[3];
   };
   struct Shared
   {
      std::atomic<int> stop;
      std::atomic<uint64_t> states;
      std::atomic<int> statesFull;
      std::atomic<int> known[64];
      ScenStat st[kMaxScen];
      Slot slot[64];
   };
   Shared* S = nullptr;
   std::atomic<uint64_t>* gSet = nullptr;
   uint64_t gSetSize = 1 << 25;
   std::atomic<uint8_t>* gClaims = nullptr;

   struct Scen
   {
      std::string name;
      mc::Options o;
      std::function<void(mc::Ctx&)> body;
   };
   std::vector<Scen> gScen;
   std::vector<std::function<void()>> gStart;
   std::vector<std::string> gAssume;
   bool gThorough = false;
   struct Known
   {
      std::string key, text;
   };
   std::vector<Known> gKnown;

   // --- per process explorer state
   std::vector<int> gChoice, gArity;
   size_t gPos = 0;
   int gMe = -1;
   int gCur = -1;
   bool gReplay = false;
   bool gSkipMode = false; // sharding active
   uint64_t gOrd = 0;
   std::vector<int> gLastPrefix;
   std::vector<int> gReplayChoices;
   bool gVerbose = false;
   uint64_t gTransLocal = 0;
   std::string gScratch;

   struct SkipExc {};
   struct DiscardExc {};
   struct FailExc {};

   double now()
   {
      return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
   }

   int rmOne(const char* p, const struct stat*, int, struct FTW*)
   {
      return remove(p);
   }
   void rmTree(const std::string& d)
   {
      if(d.size() > 12 && d.rfind("/tmp/mcscr", 0) == 0)nftw(d.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS);
   }
   std::string jsonStr(const std::string& s)
   {
      std::string o = "\"";
      char b[8];
      for(unsigned char c : s)
      {
         if(c == '"' || c == '\\')
         {
            o += '\\';
            o += c;
         }
         else if(c < 0x20 || c >= 0x7f)
         {
            snprintf(b, 8, "\\u%04x", c);
            o += b;
         }
         else o += c;
      }
      return o + "\"";
   }
}

using namespace mc;

uint64_t mc::hash(const void* p, size_t n, uint64_t h)
{
   const unsigned char* c = (const unsigned char*)p;
   for(size_t i = 0; i < n; i++)
   {
      h ^= c[i];
      h *= 0x100000001b3ULL;
   }
   h ^= h >> 29;
   return h * 0xbf58476d1ce4e5b9ULL;
}
std::string mc::fmt(const char* f, ...)
{
   char b[4096];
   va_list ap;
   va_start(ap, f);
   vsnprintf(b, sizeof b, f, ap);
   va_end(ap);
   return b;
}
void mc::scenario(const std::string& name, const Options& o, std::function<void(Ctx&)> body)
{
   gScen.push_back({name, o, body});
}
bool mc::thorough()
{
   return gThorough;
}
void mc::onWorkerStart(std::function<void()> f)
{
   gStart.push_back(f);
}
void mc::assume(const std::string& t)
{
   gAssume.push_back(t);
}
const std::string& mc::scratch()
{
   if(gScratch.empty())
   {
      const char* base = getenv("MC_SCRATCH");
      gScratch = std::string(base ? base : "/tmp/mcscr") + "/w" + std::to_string(getpid());
      mkdir(gScratch.c_str(), 0700);
   }
   return gScratch;
}

// --- leak accounting
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t),
                                                         void (*f)(const volatile void*)) __attribute__((weak));
namespace
{
   const uint32_t kLive = 1 << 17;
   struct Live
   {
      const volatile void* p;
      size_t n;
   };
   Live gLive[kLive];
   uint32_t gUsed[kLive];
   uint32_t gUsedN = 0;
   size_t gLiveBlocks = 0, gLiveBytes = 0, gLivePeak = 0;
   bool gTrack = false, gTrackOverflow = false;
   int gTrackInstalled = 0;
   uint32_t slotOf(const volatile void* p)
   {
      uint64_t h = (uint64_t)(uintptr_t)p * 0x9e3779b97f4a7c15ULL;
      return (uint32_t)(h >> 40) & (kLive - 1);
   }
   void hookMalloc(const volatile void* p, size_t n)
   {
      if(!gTrack || !p)return;
      if(gUsedN > kLive / 2)
      {
         gTrackOverflow = true;
         return;
      }
      uint32_t i = slotOf(p);
      while(gLive[i].p && gLive[i].p != p)i = (i + 1) & (kLive - 1);
      if(!gLive[i].p)gUsed[gUsedN++] = i;
      gLive[i].p = p;
      gLive[i].n = n + 1;
      gLiveBlocks++;
      gLiveBytes += n;
      if(gLiveBytes > gLivePeak)gLivePeak = gLiveBytes;
   }
   void hookFree(const volatile void* p)
   {
      if(!gTrack || !p)return;
      uint32_t i = slotOf(p);
      while(gLive[i].p)
      {
         if(gLive[i].p == p)
         {
            if(gLive[i].n)
            {
               gLiveBlocks--;
               gLiveBytes -= gLive[i].n - 1;
               gLive[i].n = 0; // the slot stays as a tombstone
            }
            return;
         }
         i = (i + 1) & (kLive - 1);
      }
   }
   struct Untracked
   {
      bool t = gTrack;
      Untracked()
      {
         gTrack = false;
      }
      ~Untracked()
      {
         gTrack = t;
      }
   };
}
void mc::leakStart()
{
   if(!gTrackInstalled && __sanitizer_install_malloc_and_free_hooks)
      gTrackInstalled = __sanitizer_install_malloc_and_free_hooks(hookMalloc, hookFree) > 0;
   for(uint32_t i = 0; i < gUsedN; i++)gLive[gUsed[i]] = Live{};
   gUsedN = 0;
   gLiveBlocks = gLiveBytes = gLivePeak = 0;
   gTrackOverflow = false;
   gTrack = true;
}
void mc::leakStop()
{
   gTrack = false;
}
size_t mc::leakBlocks()
{
   return gTrackOverflow ? 0 : gLiveBlocks;
}
size_t mc::leakBytes()
{
   return gLiveBytes;
}
size_t mc::leakPeak()
{
   return gLivePeak;
}

int Ctx::choose(int n)
{
   Untracked untracked;
   if(n <= 0)
   {
      fprintf(stderr, "choose(%d)\n", n);
      abort();
   }
   Slot& sl = S->slot[gMe];
   sl.beat.fetch_add(1, std::memory_order_relaxed);
   int r;
   if(gPos < gChoice.size())
   {
      r = gChoice[gPos];
      if(gReplay)
      {
         if(r >= n)
         {
            fprintf(stderr, "replay diverged: choice %d of %d at %zu\n", r, n, gPos);
            _exit(4);
         }
         if(gArity.size() <= gPos)gArity.push_back(n);
      }
      else if(gArity[gPos] != n)
      {
         fprintf(stderr, "DIVERGENCE in %s at choice %zu: arity %d then %d\n",
                 gScen[gCur].name.c_str(), gPos, gArity[gPos], n);
         _exit(5);
      }
   }
   else
   {
      r = 0;
      gChoice.push_back(0);
      gArity.push_back(n);
      if(gChoice.size() >= kMaxChoices)
      {
         fprintf(stderr, "too many choices\n");
         _exit(5);
      }
   }
   sl.choice[gPos] = (uint16_t)r;
   gPos++;
   sl.n.store((int)gPos, std::memory_order_relaxed);
   if(gSkipMode && (int)gPos == gScen[gCur].o.shard)
   {
      std::vector<int> pre(gChoice.begin(), gChoice.begin() + gPos);
      if(pre != gLastPrefix)
      {
         gLastPrefix = pre;
         uint64_t ord = gOrd++;
         uint8_t z = 0;
         if(ord >= kClaims)
         {
            fprintf(stderr, "too many shards\n");
            _exit(5);
         }
         if(!gClaims[(uint64_t)gCur * kClaims + ord].compare_exchange_strong(z, 1))throw SkipExc();
      }
   }
   return r;
}
void Ctx::step(const char* f, ...)
{
   if(!gVerbose)return;
   Untracked untracked;
   va_list ap;
   va_start(ap, f);
   printf("   ");
   vprintf(f, ap);
   printf("\n");
   fflush(stdout);
   va_end(ap);
}
void Ctx::trans(uint64_t n)
{
   gTransLocal += n;
   S->slot[gMe].beat.fetch_add(1, std::memory_order_relaxed);
}
void Ctx::state(const std::string& s)
{
   state(mc::hash(s));
}
void Ctx::state(uint64_t h)
{
   if(gReplay)return;
   h ^= (uint64_t)(gCur + 1) * 0x9e3779b97f4a7c15ULL;
   if(h == 0)h = 1;
   if(S->statesFull.load(std::memory_order_relaxed))return;
   uint64_t m = gSetSize - 1;
   uint64_t i = (h ^ (h >> 31)) & m;
   for(;;)
   {
      uint64_t v = gSet[i].load(std::memory_order_relaxed);
      if(v == h)return;
      if(v == 0)
      {
         if(gSet[i].compare_exchange_strong(v, h))
         {
            uint64_t c = S->states.fetch_add(1) + 1;
            if(c > gSetSize / 2)S->statesFull = 1;
            return;
         }
         if(v == h)return;
      }
      i = (i + 1) & m;
   }
}
static void recordFail(const char* key, const char* f, va_list ap)
{
   Slot& sl = S->slot[gMe];
   vsnprintf(sl.msg, sizeof sl.msg, f, ap);
   snprintf(sl.key, sizeof sl.key, "%s", key);
}
void Ctx::fail(const char* f, ...)
{
   va_list ap;
   va_start(ap, f);
   recordFail("", f, ap);
   va_end(ap);
   throw FailExc();
}
void Ctx::failKey(const std::string& key, const char* f, ...)
{
   va_list ap;
   va_start(ap, f);
   recordFail(key.c_str(), f, ap);
   va_end(ap);
   throw FailExc();
}
void Ctx::require(bool ok, const char* f, ...)
{
   if(ok)return;
   va_list ap;
   va_start(ap, f);
   recordFail("", f, ap);
   va_end(ap);
   throw FailExc();
}
void Ctx::discard()
{
   throw DiscardExc();
}

static bool gHandles = false;
void mc::watchHandles()
{
   gHandles = true;
}
static int freeHandle()
{
   int fd = dup(2);
   if(fd >= 0)close(fd);
   return fd;
}

// result: 0 ok, 1 failed, 2 skipped, 3 discarded
static int runOnce(int scen)
{
   Ctx c;
   c.verbose = gVerbose;
   gTrack = false;
   gPos = 0;
   gTransLocal = 0;
   Slot& sl = S->slot[gMe];
   sl.scen = scen;
   sl.n = 0;
   sl.since = now();
   sl.running = 1;
   sl.beat.fetch_add(1, std::memory_order_relaxed);
   int res = 0;
   try
   {
      int handle = gHandles ? freeHandle() : 0;
      gScen[scen].body(c);
      if(gHandles)c.require(freeHandle() == handle, "a file or directory that was opened is still open");
   }
   catch(FailExc&)
   {
      res = 1;
   }
   catch(SkipExc&)
   {
      res = 2;
   }
   catch(DiscardExc&)
   {
      res = 3;
   }
   catch(std::exception& e)
   {
      snprintf(sl.msg, sizeof sl.msg, "unexpected exception: %s", e.what());
      sl.key[0] = 0;
      res = 1;
   }
   sl.running = 0;
   return res;
}

static int knownIndex(const char* key)
{
   if(!key[0])return -1;
   for(size_t i = 0; i < gKnown.size(); i++)if(gKnown[i].key == key)return (int)i;
   return -1;
}

static void worker(int me, double deadline)
{
   gMe = me;
   for(auto& f : gStart)f();
   for(int s = 0; s < (int)gScen.size(); s++)
   {
      gCur = s;
      gSkipMode = true;
      gOrd = 0;
      gLastPrefix.clear();
      gChoice.clear();
      gArity.clear();
      bool more = true;
      ScenStat& st = S->st[s];
      uint64_t k = 0;
      while(more)
      {
         if(S->stop.load(std::memory_order_relaxed))_exit(0);
         if((++k & 63) == 0 && now() > deadline)goto done;
         int r = runOnce(s);
         if(gPos < gChoice.size() && r != 2)
         {
            // an execution must consume the whole prefix it was given
            fprintf(stderr, "DIVERGENCE in %s: execution ended after %zu of %zu choices\n",
                    gScen[s].name.c_str(), gPos, gChoice.size());
            if(r != 1)_exit(5);
         }
         bool shortOne = (int)gPos < gScen[s].o.shard;
         if(r != 2 && !(shortOne && me != 0))
         {
            if(r == 3)st.discarded.fetch_add(1, std::memory_order_relaxed);
            else
            {
               uint64_t e = st.execs.fetch_add(1, std::memory_order_relaxed);
               st.trans.fetch_add(gTransLocal, std::memory_order_relaxed);
               uint64_t m = st.maxChoices.load();
               while(gPos > m && !st.maxChoices.compare_exchange_weak(m, gPos)) {}
               if(e == 0 || e == 97 || e == 1999)
               {
                  int q = e == 0 ? 0 : e == 97 ? 1 : 2;
                  int n = (int)std::min<size_t>(gPos, 64);
                  for(int i = 0; i < n; i++)st.sample[q].c[i] = (uint16_t)gChoice[i];
                  st.sample[q].n = gPos <= 64 ? n : 0;
               }
            }
         }
         if(r == 1)
         {
            int ki = knownIndex(S->slot[me].key);
            if(ki >= 0)S->known[ki].fetch_add(1);
            else
            {
               S->slot[me].failed = 1;
               _exit(3);
            }
         }
         // next sequence
         gChoice.resize(gPos);
         gArity.resize(gPos);
         more = false;
         while(!gChoice.empty())
         {
            if(++gChoice.back() < gArity.back())
            {
               more = true;
               break;
            }
            gChoice.pop_back();
            gArity.pop_back();
         }
      }
      st.done.fetch_add(1);
   }
done:
   _exit(0);
}

static pid_t forkReplay(int slot, int scen, const std::vector<int>& ch, const std::string& out, int limit)
{
   fflush(stdout);
   fflush(stderr);
   pid_t p = fork();
   if(p == 0)
   {
      int fd = open(out.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
      dup2(fd, 1);
      dup2(fd, 2);
      gMe = slot;
      gCur = scen;
      gReplay = true;
      gVerbose = true;
      gSkipMode = false;
      gChoice = ch;
      gArity.clear();
      alarm(limit);
      for(auto& f : gStart)f();
      printf("-- trace\n");
      fflush(stdout);
      int r = runOnce(scen);
      if(r == 1)
      {
         printf("-- VIOLATED: %s\n", S->slot[slot].msg);
         if(S->slot[slot].key[0])printf("-- key: %s\n", S->slot[slot].key);
         fflush(stdout);
         _exit(3);
      }
      printf("-- ok (%d)\n", r);
      fflush(stdout);
      _exit(0);
   }
   return p;
}

// processor time of a process, in seconds; -1 if it is gone
static double cpuOf(pid_t p)
{
   char b[1024];
   FILE* f = fopen(mc::fmt("/proc/%d/stat", (int)p).c_str(), "r");
   if(!f)return -1;
   size_t n = fread(b, 1, sizeof b - 1, f);
   fclose(f);
   b[n] = 0;
   const char* e = strrchr(b, ')');
   unsigned long u = 0, k = 0;
   if(!e || sscanf(e + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k) != 2)return -1;
   return (double)(u + k) / sysconf(_SC_CLK_TCK);
}

static std::string slurp(const std::string& f)
{
   std::ifstream i(f);
   std::stringstream ss;
   ss << i.rdbuf();
   return ss.str();
}

static void loadKnown(const std::string& file)
{
   std::ifstream in(file);
   std::string l;
   while(std::getline(in, l))
   {
      // finding: property=<id> key=<key> | text
      if(l.rfind("finding:", 0) != 0)continue;
      auto p = l.find("property=");
      auto k = l.find(" key=");
      auto b = l.find(" | ");
      if(p == std::string::npos || k == std::string::npos || b == std::string::npos)continue;
      std::string prop = l.substr(p + 9, k - p - 9);
      if(prop != kProperty)continue;
      gKnown.push_back({l.substr(k + 5, b - k - 5), l.substr(b + 3)});
   }
}

int main(int argc, char** argv)
{
   std::string evidence, replayDir = "replays", knownFile, replayFile, only;
   int workers = 8;
   double budget = 500;
   for(int i = 1; i < argc; i++)
   {
      std::string a = argv[i];
      auto val = [&]()
      {
         return std::string(argv[++i]);
      };
      if(a == "--evidence")evidence = val();
      else if(a == "--replays")replayDir = val();
      else if(a == "--known")knownFile = val();
      else if(a == "--replay")replayFile = val();
      else if(a == "--workers")workers = atoi(val().c_str());
      else if(a == "--budget")budget = atof(val().c_str());
      else if(a == "--thorough")gThorough = true;
      else if(a == "--only")only = val();
   }
   if(workers > 60)workers = 60;
   S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   gSetSize = gThorough ? (1ull << 27) : (1ull << 25);
   gSet = (std::atomic<uint64_t>*)mmap(nullptr, gSetSize * 8, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if(!knownFile.empty())loadKnown(knownFile);
   defineScenarios();
   if(!only.empty())
   {
      std::vector<Scen> keep;
      for(auto& s : gScen)if(s.name.find(only) != std::string::npos)keep.push_back(s);
      gScen = keep;
   }
   if((int)gScen.size() > kMaxScen)
   {
      fprintf(stderr, "too many scenarios\n");
      return 2;
   }
   gClaims = (std::atomic<uint8_t>*)mmap(nullptr, (uint64_t)kClaims * gScen.size(), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   char scr[] = "/tmp/mcscrXXXXXX";
   if(!mkdtemp(scr))
   {
      perror("mkdtemp");
      return 2;
   }
   setenv("MC_SCRATCH", scr, 1);
   mkdir(replayDir.c_str(), 0755);

   if(!replayFile.empty())
   {
      std::ifstream in(replayFile);
      std::string l, sc;
      std::vector<int> ch;
      while(std::getline(in, l))
      {
         if(l.rfind("scenario: ", 0) == 0)sc = l.substr(10);
         if(l.rfind("choices:", 0) == 0)
         {
            std::stringstream ss(l.substr(8));
            int x;
            while(ss >> x)ch.push_back(x);
            break;
         }
      }
      int si = -1;
      for(size_t i = 0; i < gScen.size(); i++)if(gScen[i].name == sc)si = (int)i;
      if(si < 0)
      {
         fprintf(stderr, "no scenario '%s'\n", sc.c_str());
         return 2;
      }
      std::string out = std::string(scr) + "/replay.txt";
      int st = 0;
      waitpid(forkReplay(60, si, ch, out, 120), &st, 0);
      printf("%s", slurp(out).c_str());
      rmTree(scr);
      bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      printf(bad ? "REPLAY: reproduced\n" : "REPLAY: not reproduced\n");
      return bad ? 1 : 0;
   }

   double t0 = now();
   double deadline = t0 + budget;
   std::vector<pid_t> pid(workers);
   std::vector<std::string> logs(workers);
   for(int w = 0; w < workers; w++)
   {
      logs[w] = std::string(scr) + "/log" + std::to_string(w);
      pid_t p = fork();
      if(p == 0)
      {
         int fd = open("/dev/null", O_WRONLY);
         dup2(fd, 1);
         int e = open(logs[w].c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
         dup2(e, 2);
         struct rlimit rl;
         getrlimit(RLIMIT_FSIZE, &rl);
         rl.rlim_cur = 1 << 28; // a scenario may raise it again
         setrlimit(RLIMIT_FSIZE, &rl);
         rl.rlim_cur = rl.rlim_max = 0;
         setrlimit(RLIMIT_CORE, &rl);
         worker(w, deadline);
         _exit(0);
      }
      pid[w] = p;
   }
   // supervise
   std::vector<uint64_t> last(workers, 0);
   std::vector<double> lastT(workers, now()), lastCpu(workers, -1);
   std::vector<bool> alive(workers, true);
   int bad = -1;
   std::string why;
   int internal = 0;
   bool hang = false;
   bool busy = false; // a hanging execution used the processor all the time
   bool overtime = false; // stopped because the budget is used up, which is no verdict
   int left = workers;
   while(left > 0)
   {
      int st = 0;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if(p > 0)
      {
         int w = -1;
         for(int i = 0; i < workers; i++)if(pid[i] == p && alive[i])w = i;
         if(w < 0)continue;
         alive[w] = false;
         left--;
         bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
         if(!ok && !S->stop && bad < 0 && !overtime)
         {
            if(WIFEXITED(st) && (WEXITSTATUS(st) == 5 || WEXITSTATUS(st) == 4))
            {
               internal = 1;
               why = slurp(logs[w]);
            }
            else
            {
               bad = w;
               if(WIFEXITED(st) && WEXITSTATUS(st) == 3)why = S->slot[w].msg;
               else if(WIFSIGNALED(st))why = mc::fmt("execution ended by signal %d", WTERMSIG(st));
               else why = mc::fmt("execution ended the process (exit %d, sanitizer report or abort)", WEXITSTATUS(st));
            }
            S->stop = 1;
         }
         continue;
      }
      usleep(20000);
      for(int i = 0; i < workers; i++)
      {
         if(!alive[i])continue;
         uint64_t b = S->slot[i].beat;
         if(b != last[i])
         {
            last[i] = b;
            lastT[i] = now();
            lastCpu[i] = -1;
         }
         else if(now() - lastT[i] > 5 && lastCpu[i] < 0)lastCpu[i] = cpuOf(pid[i]);
         // Without progress for 40 more seconds of its own processor time (the machine may be busy with
         // other things), waiting for something that never comes, or without progress for minutes
         else if(now() - lastT[i] > 25 && S->slot[i].running && bad < 0 && !S->stop &&
                 (cpuOf(pid[i]) > lastCpu[i] + 40 || (now() - lastT[i] > 75 && cpuOf(pid[i]) < lastCpu[i] + 1) || now() - lastT[i] > 300))
         {
            bad = i;
            hang = true;
            busy = cpuOf(pid[i]) > lastCpu[i] + 40;
            why = "execution does not terminate";
            S->stop = 1;
         }
      }
      if(S->stop)
      {
         for(int i = 0; i < workers; i++)if(alive[i])kill(pid[i], SIGKILL);
      }
      else if(now() > deadline + 60)
      {
         for(int i = 0; i < workers; i++)
         {
            if(alive[i] && !overtime && S->slot[i].running && now() - S->slot[i].since > 150 && bad < 0)
            {
               // makes progress, but without end
               bad = i;
               hang = true;
               why = "execution does not terminate";
               S->stop = 1;
            }
         }
         overtime = true;
         for(int i = 0; i < workers; i++)if(alive[i])kill(pid[i], SIGKILL);
      }
   }
   int rc = 0;
   int violations = 0;
   if(internal)
   {
      printf("INTERNAL property=%s %s\n", kProperty, why.c_str());
      rmTree(scr);
      return 2;
   }
   if(bad >= 0)
   {
      Slot& sl = S->slot[bad];
      int scen = sl.scen;
      std::vector<int> ch(sl.choice, sl.choice + sl.n);
      std::string msg = why;
      std::string tmp = std::string(scr) + "/replay.txt";
      int confirmed = 0;
      for(int tries = 0; tries < 2 && !confirmed; tries++)
      {
         unlink(tmp.c_str());
         int st = 0;
         waitpid(forkReplay(60, scen, ch, tmp, hang ? 60 : 120), &st, 0);
         if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0))confirmed = 1;
      }
      std::string trace = slurp(tmp);
      std::string wlog = slurp(logs[bad]);
      uint64_t h = mc::hash(gScen[scen].name);
      for(int c : ch)h = mc::hash(&c, sizeof c, h);
      std::string path = replayDir + "/" + kProperty + "-" + mc::fmt("%08x", (unsigned)(h >> 32)) + ".txt";
      {
         std::ofstream o(path);
         o << "property: " << kProperty << "\nscenario: " << gScen[scen].name << "\nchoices:";
         for(int c : ch)o << ' ' << c;
         o << "\ntier: " << (gThorough ? "thorough" : "quick") << "\nreason: " << msg << "\nconfirmed-alone: "
           << (confirmed ? "yes" : "no (depends on earlier executions of the same worker)") << "\n"
           << trace << "\n";
         if(!confirmed)o << "-- worker log\n" << wlog << "\n";
      }
      // print the tail of the trace for humans
      printf("scenario %s: %s\n", gScen[scen].name.c_str(), msg.c_str());
      if(trace.size() > 3000)trace = trace.substr(0, 1500) + "\n...\n" + trace.substr(trace.size() - 1500);
      printf("%s\n", trace.c_str());
      if(!confirmed && hang && !busy)
      {
         printf("INTERNAL property=%s a stalled execution finished when run alone\n", kProperty);
         rmTree(scr);
         return 2;
      }
      printf("VIOLATION property=%s replay=%s\n", kProperty, path.c_str());
      rc = 1;
      violations = 1;
   }
   // evidence
   bool complete = rc == 0;
   uint64_t execs = 0, trans = 0;
   std::string scj, samples;
   int nsamp = 0;
   for(size_t s = 0; s < gScen.size(); s++)
   {
      ScenStat& st = S->st[s];
      bool done = (int)st.done.load() == workers;
      if(!done)complete = false;
      execs += st.execs;
      trans += st.trans;
      if(s)scj += ",\n  ";
      scj += "{\"name\":" + jsonStr(gScen[s].name) + ",\"bound\":" + jsonStr(gScen[s].o.bound) +
             mc::fmt(",\"executions\":%llu,\"outside_alphabet\":%llu,\"transitions\":%llu,\"longest_choice_sequence\":%llu,\"complete\":%s}",
                     (unsigned long long)st.execs, (unsigned long long)st.discarded, (unsigned long long)st.trans,
                     (unsigned long long)st.maxChoices, done ? "true" : "false");
   }
   if(rc == 0 && !evidence.empty())
   {
      for(size_t s = 0; s < gScen.size() && nsamp < 12; s++)
      {
         ScenStat& st = S->st[s];
         int q = st.sample[2].n ? 2 : st.sample[1].n ? 1 : 0;
         if(q == 0 && st.execs == 0)continue;
         std::vector<int> ch(st.sample[q].c, st.sample[q].c + st.sample[q].n);
         std::string tmp = std::string(scr) + "/sample" + std::to_string(s) + ".txt";
         int wst = 0;
         waitpid(forkReplay(61, (int)s, ch, tmp, 60), &wst, 0);
         std::string t = slurp(tmp);
         auto pos = t.find("-- trace\n");
         if(pos != std::string::npos)t = t.substr(pos + 9);
         if(t.size() > 900)t = t.substr(0, 900) + "...";
         if(nsamp++)samples += ",\n  ";
         std::string cs;
         for(int c : ch)cs += (cs.empty() ? "" : " ") + std::to_string(c);
         samples += "{\"scenario\":" + jsonStr(gScen[s].name) + ",\"choices\":" + jsonStr(cs) + ",\"trace\":" + jsonStr(t) + "}";
      }
   }
   for(size_t i = 0; i < gKnown.size() && rc == 0; i++)
   {
      printf("KNOWN-FINDING: property=%s %s%s\n", kProperty, gKnown[i].text.c_str(),
             S->known[i] ? "" : " (not met on this run)");
   }
   if(!evidence.empty())
   {
      const char* seed = getenv("VERIF_SEED");
      std::ofstream o(evidence);
      o << "{\"property\":\"" << kProperty << "\",\"tier\":\"" << (gThorough ? "thorough" : "quick") << "\",\"seed\":"
        << (seed && *seed ? atoi(seed) : 1) << ",\"level\":\"model_checking\",\n \"coverage\":{\"states\":" << S->states
        << ",\"transitions\":" << trans << ",\"traces_validated_against_impl\":" << execs
        << ",\n \"exhaustive\":" << (complete ? "true" : "false")
        << ",\"states_saturated\":" << (S->statesFull ? "true" : "false")
        << ",\n \"explanation\":" << jsonStr("states: distinct abstract (reference-model) states reached; transitions: calls of the real code whose result was compared with the reference; traces: complete executions of the real code, each compared step by step with the reference model. Every choice sequence within the bounds below was executed when complete is true.")
        << ",\n \"scenarios\":[" << scj << "],\n \"samples\":[" << samples << "]},\n \"assumptions\":[";
      for(size_t i = 0; i < gAssume.size(); i++)o << (i ? "," : "") << jsonStr(gAssume[i]);
      o << "],\n \"wall_s\":" << mc::fmt("%.2f", now() - t0) << ",\"violations\":" << violations << "}\n";
   }
   if(rc == 0)
      printf("%s: %llu executions, %llu transitions, %llu states, %s, %.1f s\n", kProperty, (unsigned long long)execs,
             (unsigned long long)trans, (unsigned long long)S->states, complete ? "complete" : "STOPPED AT TIME BUDGET", now() - t0);
   rmTree(scr);
   return rc;
}
