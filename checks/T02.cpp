// The log, the last error, exceptions, and what System tells about its surroundings.
#include "lib.hpp"
#include <dlfcn.h>
#include <iostream>
#include <link.h>
#include <memory>
#include <sstream>
using namespace jm;
const char* const kProperty = "T02";

namespace
{
   struct Captured
   {
      std::stringstream text;
      std::ostream& to;
      std::streambuf* old;
      explicit Captured(std::ostream& s = std::cout): to(s), old(s.rdbuf(text.rdbuf())) {}
      ~Captured()
      {
         to.rdbuf(old);
      }
   };
   std::string B(const String& s)
   {
      ByteArray b = s.toCString();
      return std::string(b.constData(), (size_t)b.size());
   }
   const LogLevel LEVEL[] = {LogLevel::kDebug, LogLevel::kInformation, LogLevel::kWarning, LogLevel::kError};
   const char* const LABEL[] = {"DEBUG: ", "INFO: ", "WARNING: ", "ERROR: "};
   const char* const BEFORE[] = {"", "", "\033[1m\033[33m", "\033[1m\033[31m"};
   // the date in front of a message; its length, 0 if there is none
   size_t date(const std::string& s)
   {
      const char* const pattern = "[dddd-dd-ddTdd:dd:dd.dddZ] ";
      size_t i = 0;
      for(; pattern[i]; i++)
      {
         if(i >= s.size())return 0;
         if(pattern[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != pattern[i])return 0;
      }
      return i;
   }
   __attribute__((noinline)) void deep(int n, const String& m)
   {
      volatile char keep[32] = {0};
      if(n > 0)deep(n - 1, m);
      else throw Exception(m);
      keep[0] = 1;
   }
}
void defineScenarios()
{
   useLibrary();
   mc::onWorkerStart([]
   {
      // the first stack trace of a process loads a library
      Exception e("first");
   });
   mc::scenario("log", {3, "all sequences of 4 (thorough 5) of 18 steps: dates on and off, the four label levels, three messages in each of four levels"}, [](mc::Ctx & c)
   {
      static const char* const M[] = {"first message", "", "50% of %1 [x] ERROR: "};
      bool dates = true, failed = false;
      int label = 0;
      std::string last = B(System::lastErrorMessage());
      {
         System::logEnableDate(true);
         System::logEnableLabel(LogLevel::kDebug);
      }
      for(int i = 0; i < mc::tier(4, 5); i++)
      {
         int op = c.choose(18);
         c.trans();
         if(op < 2)System::logEnableDate(dates = op == 1);
         else if(op < 6)System::logEnableLabel(LEVEL[label = op - 2]);
         else
         {
            int l = (op - 6) % 4;
            const char* m = M[(op - 6) / 4];
            std::string out;
            {
               Captured cap;
               System::log(m, LEVEL[l]);
               out = cap.text.str();
            }
            if(l == 3)last = m, failed = true;
            if(l == 0)
            {
               EXPECT(c, out.empty(), "a message for debugging is written: %s", out.c_str());
               continue;
            }
            size_t d = date(out);
            EXPECT(c, (d > 0) == dates, "dates are switched %s, the log is '%s'", dates ? "on" : "off", out.c_str());
            std::string want = BEFORE[l];
            if(l >= label)want += LABEL[l];
            want += m;
            if(l >= 2)want += "\033[0m";
            want += "\n";
            EXPECT(c, out.substr(d) == want, "the log is '%s' instead of '%s'", out.substr(d).c_str(), want.c_str());
         }
         EXPECT(c, B(System::lastErrorMessage()) == last, "the last error is '%s' instead of '%s'", B(System::lastErrorMessage()).c_str(), last.c_str());
      }
      c.state(mc::fmt("%d %d %d %s", dates, label, failed, last.c_str()));
   });
   mc::scenario("long messages", {0, "messages of 63 lengths up to 100000 characters, in three levels and as exception"}, [](mc::Ctx & c)
   {
      int n = farLengths()[c.choose((int)farLengths().size())], l = 1 + c.choose(4);
      String m;
      std::string b;
      for(int i = 0; i < n; i++)b += (char)(' ' + i % 90);
      m = b.c_str();
      System::logEnableDate(false);
      System::logEnableLabel(LogLevel::kError);
      Captured cap;
      if(l < 4)System::log(m, LEVEL[l]);
      else
      {
         try
         {
            throw Exception(m);
         }
         catch(Exception& e)
         {
            EXPECT(c, e.errorMessage() == m, "message of the exception");
         }
      }
      l = std::min(l, 3);
      EXPECT(c, cap.text.str() == BEFORE[l] + std::string(l == 3 ? LABEL[3] : "") + b + (l >= 2 ? "\033[0m" : "") + "\n", "the log of %d characters has %zu", n, cap.text.str().size());
      EXPECT(c, l < 3 || System::lastErrorMessage() == m, "the last error");
      c.trans();
      c.state(n * 4 + l);
   });
   mc::scenario("exceptions", {2, "6 messages x 26 depths of the stack up to beyond 300 frames x 7 ways of passing them on"}, [](mc::Ctx & c)
   {
      static const char* const M[] = {"", "message", "with %1 and \\ and \"", "two\nlines", "x", "ERROR"};
      String m = M[c.choose(6)];
      int d = c.choose(26), way = c.choose(7);
      if(d > 20)d = (d - 20) * 60;
      auto body = [&]
      {
         int caught = 0;
         std::unique_ptr<Captured> logged;
         auto look = [&](const Exception & e)
         {
            caught++;
            EXPECT(c, e.errorMessage() == m, "the message is '%s' instead of '%s'", P(e.errorMessage()).c_str(), P(m).c_str());
            String t = e.GetStrackTrace();
            std::string first = "Exception in thread \"\"" + (m.size() ? " : " + B(m) : std::string()) + "\r\n", all = B(t);
            EXPECT(c, all.compare(0, first.size(), first) == 0, "the stack trace begins '%s'", all.substr(0, 100).c_str());
            size_t lines = (size_t)std::count(all.begin() + (long)first.size(), all.end(), '\n');
            EXPECT(c, lines >= 1, "no stack trace");
            Captured cap(std::cerr);
            e.printStackTrace();
            std::string out = cap.text.str();
            size_t head = 1 + (size_t)(m.indexOf('\n') >= 0);
            EXPECT(c, (size_t)std::count(out.begin(), out.end(), '\n') == lines + head && out.find(" : " + B(m)) == (m.size() ? out.find(" : ") : std::string::npos) && out.find("Exception in thread") == 0,
                   "the printed stack trace begins '%s'", out.substr(0, 100).c_str());
            EXPECT(c, e.GetStrackTrace() == t, "the stack trace has changed");
         };
         try
         {
            try
            {
               System::logEnableDate(false);
               System::logEnableLabel(LogLevel::kInformation);
               logged = std::make_unique<Captured>();
               deep(d, m);
               c.fail("the exception is lost");
            }
            catch(Exception& e)
            {
               const std::string out = logged->text.str();
               logged.reset();
               EXPECT(c, out == BEFORE[3] + (LABEL[3] + B(m)) + "\033[0m\n", "the log of the exception is '%s'", out.c_str());
               EXPECT(c, System::lastErrorMessage() == m, "the last error is '%s'", P(System::lastErrorMessage()).c_str());
               if(way == 0)look(e);
               else if(way == 1)
               {
                  Exception f(e);
                  look(f);
                  look(e);
               }
               else if(way == 2)throw;
               else if(way == 3)throw e;
               else if(way == 4)
               {
                  Exception* f;
                  {
                     Exception g(e);
                     f = new Exception(g);
                  }
                  look(*f);
                  EXPECT(c, f->GetStrackTrace() == e.GetStrackTrace(), "the copy has another stack trace");
                  delete f;
               }
               else if(way == 5)throw Exception(e);
               else
               {
                  try
                  {
                     deep(3, "another");
                  }
                  catch(Exception& g)
                  {
                     EXPECT(c, g.errorMessage() == String("another"), "nested: '%s'", P(g.errorMessage()).c_str());
                  }
                  look(e);
               }
            }
         }
         catch(Exception& e)
         {
            look(e);
         }
         EXPECT(c, caught >= 1, "the exception is lost");
      };
      mc::leakStart();
      body();
      mc::leakStop();
      EXPECT(c, mc::leakBlocks() <= 1, "%zu blocks (%zu bytes) were never released", mc::leakBlocks(), mc::leakBytes()); // one is the last error message
   });
   mc::scenario("surroundings", {1, "the variable USER with 5 values and not set at all; libraries and symbols that exist and that do not"}, [](mc::Ctx & c)
   {
      static const char* const USER[] = {nullptr, "", "a", "some user", "x.y@z", "\xc3\xa4"};
      const char* u = USER[c.choose(6)];
      if(u)setenv("USER", u, 1);
      else unsetenv("USER");
      EXPECT(c, B(System::userId()) == std::string(u ? u : ""), "user '%s' instead of '%s'", B(System::userId()).c_str(), u ? u : "");
      Captured cap;
      struct Dl
      {
         static int f(dl_phdr_info* i, size_t, void* p)
         {
            if(strstr(i->dlpi_name, "/libm.so"))*(std::string*)p = i->dlpi_name;
            return 0;
         }
      };
      std::string lib;
      dl_iterate_phdr(Dl::f, &lib);
      if(!lib.empty())
      {
         File f(lib.c_str());
         void* h = System::loadDynamicLibrary(&f);
         EXPECT(c, h != nullptr, "%s is not loaded", lib.c_str());
         EXPECT(c, System::findSymbol(h, "cos") == dlsym(h, "cos") && dlsym(h, "cos"), "cos is not found");
         EXPECT(c, System::findSymbol(h, "nothingOfThisName") == nullptr, "a symbol that does not exist is found");
         System::unloadDynamicLibrary(h);
      }
      File none("/nowhere/at/all.so");
      EXPECT(c, System::loadDynamicLibrary(&none) == nullptr, "a library that does not exist is loaded");
   });
}
