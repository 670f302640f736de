// The test framework: every assertion is counted once and decided right; test vectors run their tests.
#include "lib.hpp"
#include <iostream>
#include <sstream>
using namespace jm;
const char* const kProperty = "T01";

namespace
{
   typedef __int128 I;
   // what is written to a stream (std::cout) meanwhile
   struct Captured
   {
      std::stringstream text;
      std::ostream& to;
      std::streambuf* old;
      explicit Captured(std::ostream& s = std::cout): to(s), old(s.rdbuf(text.rdbuf())) {}
      ~Captured()
      {
         to.rdbuf(old);
      }
   };
   struct Asserting: public Test
   {
      std::function<void(Asserting&)> f;
      std::vector<int>* order = nullptr;
      int* alive = nullptr;
      int id = 0;
      ~Asserting() override
      {
         if(alive)--*alive;
      }
      void doTest() override
      {
         if(order)order->push_back(id);
         f(*this);
      }
      using Test::testEquals;
      using Test::testEqualsIgnoreCase;
      using Test::testTrue;
      using Test::testFalse;
      using Test::testNull;
      using Test::testNotNull;
      using Test::testFail;
      using Test::setErrorCode;
      using Test::errorCode;
   };
   std::string dec(I v)
   {
      if(v < 0)return "-" + dec(-v);
      std::string s;
      do s.insert(s.begin(), (char)('0' + (int)(v % 10)));
      while((v /= 10) != 0);
      return s;
   }
   struct Counts
   {
      int64 a = gTestCount, b = gErrorCount, c = gTotalTestCount, d = gTotalErrorCount;
   };
   // one assertion: counted once in both counters, an error exactly if it does not hold, and then the log names it
   void one(mc::Ctx& c, bool holds, const std::string& what, const std::string& inlog, const std::function<void(Asserting&)>& f)
   {
      Asserting t;
      Counts was;
      std::string log;
      {
         Captured cap;
         f(t);
         log = cap.text.str();
      }
      c.trans();
      Counts now;
      EXPECT(c, now.a == was.a + 1 && now.c == was.c + 1, "%s is counted as %lld tests (in total %lld)", what.c_str(), (long long)(now.a - was.a), (long long)(now.c - was.c));
      int64 e = holds ? 0 : 1;
      EXPECT(c, now.b == was.b + e && now.d == was.d + e, "%s counts %lld errors (in total %lld) instead of %lld", what.c_str(), (long long)(now.b - was.b), (long long)(now.d - was.d), (long long)e);
      if(holds)EXPECT(c, log.empty(), "%s holds but writes %s", what.c_str(), log.c_str());
      else
      {
         EXPECT(c, std::count(log.begin(), log.end(), '\n') == 1 && log.find("the message") != std::string::npos, "%s writes '%s'", what.c_str(), log.c_str());
         EXPECT(c, log.find(inlog) != std::string::npos, "%s writes '%s' without %s", what.c_str(), log.c_str(), inlog.c_str());
      }
   }
   template<class T> std::vector<T> limits()
   {
      std::vector<T> v = {0, 1, 2, 42, std::numeric_limits<T>::max(), (T)(std::numeric_limits<T>::max() - 1), (T)(std::numeric_limits<T>::max() / 2), (T)(std::numeric_limits<T>::max() / 2 + 1),
                          std::numeric_limits<T>::min(), (T)(std::numeric_limits<T>::min() + 1), (T)2147483647, (T)2147483648LL, (T)4294967295LL, (T)4294967296LL, (T) - 1, (T) - 2
                         };
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      return v;
   }
   template<class A, class B> void integers(mc::Ctx& c, const char* types)
   {
      auto a = limits<A>();
      auto b = limits<B>();
      A x = a[(size_t)c.choose((int)a.size())];
      for(B y : b)one(c, (I)x == (I)y, mc::fmt("testEquals(%s) with %s and %s", types, dec(x).c_str(), dec(y).c_str()),
                         "'" + dec(x) + "' '" + dec(y) + "'", [&](Asserting & t)
      {
         t.testEquals(x, y, "the message");
      });
   }
}
void defineScenarios()
{
   useLibrary();
   mc::onWorkerStart([]
   {
      System::logEnableDate(false);
   });
   mc::scenario("integers", {2, "all pairs of integer types, all pairs of 8 to 16 boundary values of the types"}, [](mc::Ctx & c)
   {
      switch(c.choose(9))
      {
         case 0: return integers<int64, int64>(c, "int64, int64");
         case 1: return integers<int64, int32>(c, "int64, int32");
         case 2: return integers<uint64, uint64>(c, "uint64, uint64");
         case 3: return integers<uint64, int32>(c, "uint64, int32");
         case 4: return integers<uint64, uint32>(c, "uint64, uint32");
         case 5: return integers<int32, int32>(c, "int32, int32");
         case 6: return integers<uint32, uint32>(c, "uint32, uint32");
         case 7: return integers<uint32, int32>(c, "uint32, int32");
         default: return integers<int32, uint32>(c, "int32, uint32");
      }
   });
   mc::scenario("numbers", {2, "all pairs of 7 values x 14 distances around the tolerance, infinite values, and values that are no numbers"}, [](mc::Ctx & c)
   {
      static const double V[] = {0, 1, -1, 1000, -0.25, NAN, INFINITY, -INFINITY};
      static const double D[] = {0, 1e-12, 1e-9, 1e-8, 0.9e-7, 1.1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1, 2, 1e9, NAN, INFINITY};
      double a = V[c.choose(8)];
      for(double d : D)for(int s = -1; s <= 1; s += 2)
         {
            double b = a + s * d;
            bool holds = a == b || std::fabs(a - b) <= RESABS; // not if one of them is no number
            if(std::fabs(std::fabs(a - b) - RESABS) < RESABS * 1e-3)continue;
            one(c, holds, mc::fmt("testEquals(%.17g, %.17g)", a, b), "'", [&](Asserting & t)
            {
               t.testEquals(a, b, "the message");
            });
         }
   });
   mc::scenario("texts", {2, "all pairs of texts up to length 3 over a, A, b and 7"}, [](mc::Ctx & c)
   {
      static const char16_t A[] = {'a', 'A', 'b', '7'};
      std::vector<std::u16string> all{u""};
      for(size_t i = 0; i < all.size(); i++)if(all[i].size() < (size_t)mc::tier(2, 3))for(char16_t x : A)all.push_back(all[i] + x);
      auto x = all[(size_t)c.choose((int)all.size())];
      auto low = [](std::u16string s)
      {
         for(auto& q : s)if(q == 'A')q = 'a';
         return s;
      };
      for(auto& y : all)
      {
         String s = J(x), t = J(y);
         ByteArray cs = s.toCString(), ct = t.toCString();
         std::string inlog = "'" + std::string(cs.constData()) + "' '" + std::string(ct.constData()) + "'";
         one(c, x == y, mc::fmt("testEquals(%s, %s)", P(x).c_str(), P(y).c_str()), inlog, [&](Asserting & q)
         {
            q.testEquals(s, t, "the message");
         });
         one(c, low(x) == low(y), mc::fmt("testEqualsIgnoreCase(%s, %s)", P(x).c_str(), P(y).c_str()), inlog, [&](Asserting & q)
         {
            q.testEqualsIgnoreCase(s, t, "the message");
         });
      }
   });
   mc::scenario("pointers and conditions", {1, "all pairs of three pointers, testNull, testNotNull, testTrue, testFalse, testFail, testUnexpectedException"}, [](mc::Ctx & c)
   {
      static int m[2];
      void* P3[] = {nullptr, m, m + 1};
      void* a = P3[c.choose(3)], *b = P3[c.choose(3)];
      one(c, a == b, "testEquals for pointers", "'", [&](Asserting & t)
      {
         t.testEquals(a, b, "the message");
      });
      one(c, !a, "testNull", "", [&](Asserting & t)
      {
         t.testNull(a, "the message");
      });
      one(c, !!a, "testNotNull", "", [&](Asserting & t)
      {
         t.testNotNull(a, "the message");
      });
      one(c, !!b, "testTrue", "", [&](Asserting & t)
      {
         t.testTrue(b != nullptr, "the message");
      });
      one(c, !b, "testFalse", "", [&](Asserting & t)
      {
         t.testFalse(b != nullptr, "the message");
      });
      one(c, false, "testFail", "", [&](Asserting & t)
      {
         t.testFail("the message");
      });
      one(c, false, "testUnexpectedException", "", [&](Asserting & t)
      {
         t.testUnexpectedException("the message");
      });
      Asserting t;
      t.setErrorCode("E1");
      t.setName("N1");
      EXPECT(c, t.errorCode() == String("E1") && t.name() == String("N1"), "name or error message are lost");
   });
   // --- test vectors
   static const char* const ARGS[] = {nullptr, "", "0", "1", "2", "3", "99", "-1", "x", "1x"};
   mc::scenario("test vectors", {3, "10 arguments x all vectors of up to 3 tests of 7 kinds (nothing, passing, failing, both, exceptions before and after), executed once or twice"}, [](mc::Ctx & c)
   {
      int arg = c.choose(10), n = c.choose(4), again = c.choose(2), alive = n;
      struct Kind
      {
         int tests, errors;
         bool thrown;
      };
      static const Kind K[] = {{0, 0, false}, {1, 0, false}, {1, 1, false}, {3, 1, false}, {1, 1, true}, {2, 1, true}, {3, 2, true}};
      std::vector<int> order, kinds;
      for(int i = 0; i < n; i++)kinds.push_back(c.choose(7));
      Captured err(std::cerr);
      gTestCount = gErrorCount = 0; // of assertions outside of vectors
      std::string what = mc::fmt("vector of %d tests with argument %s", n, ARGS[arg] ? ARGS[arg] : "none");
      {
         const char* argv[] = {"program", ARGS[arg], nullptr};
         TestVector v(arg == 0 ? 1 : 2, argv);
         for(int i = 0; i < n; i++)
         {
            Asserting* t = new Asserting();
            t->order = &order;
            t->alive = &alive;
            t->id = i;
            t->setName(String::valueOf(i));
            int k = kinds[(size_t)i];
            t->f = [k](Asserting & q)
            {
               if(k == 1)q.testTrue(true, "m");
               if(k == 2)q.testTrue(false, "m");
               if(k == 3)q.testTrue(true, "m"), q.testTrue(false, "m"), q.testTrue(true, "m");
               if(k == 5)q.testTrue(true, "m");
               if(k == 6)q.testTrue(true, "m"), q.testTrue(false, "m");
               if(K[k].thrown)throw Exception("unexpected");
            };
            v.addTest(t);
         }
         int only = arg >= 2 && arg <= 6 ? atoi(ARGS[arg]) : -1;
         for(int round = 0; round <= again; round++)
         {
            order.clear();
            std::vector<int> want;
            int64 tests = 0, errors = 0;
            std::vector<std::string> lines;
            for(int i = 0; i < n; i++)if(only < 0 || only == i)
               {
                  want.push_back(i);
                  const Kind& k = K[kinds[(size_t)i]];
                  tests += k.tests;
                  errors += k.errors;
                  lines.push_back(mc::fmt("Execute %d...", i));
                  lines.push_back(mc::fmt("Test finished! %d Tests, %d Errors.", k.tests, k.errors));
               }
            int64 got;
            std::string out;
            {
               Captured cap;
               got = v.execute();
               out = cap.text.str();
            }
            c.trans();
            EXPECT(c, order == want, "%s: %zu tests are executed (or in another order) instead of %zu", what.c_str(), order.size(), want.size());
            EXPECT(c, got == errors && gTotalErrorCount == errors && gTotalTestCount == tests, "%s: %lld errors (%lld), %lld tests instead of %lld and %lld", what.c_str(),
                   (long long)got, (long long)gTotalErrorCount, (long long)gTotalTestCount, (long long)errors, (long long)tests);
            size_t at = 0;
            lines.push_back(mc::fmt("%d\n", (int)tests));
            lines.push_back(mc::fmt("%d", (int)errors));
            for(auto& l : lines)
            {
               size_t p = out.find(l, at);
               EXPECT(c, p != std::string::npos, "%s: '%s' is missing in the output %s", what.c_str(), l.c_str(), out.c_str());
               at = p + l.size();
            }
            EXPECT(c, gTestCount == 0 && gErrorCount == 0, "%s: the counters of the single test are not reset", what.c_str());
         }
         EXPECT(c, alive == n, "%s: tests are deleted before the vector", what.c_str());
      }
      EXPECT(c, alive == 0, "%s: %d tests are never deleted", what.c_str(), alive);
   });
}
