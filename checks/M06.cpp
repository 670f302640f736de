// Differences between all pairs of sequences.
// mc: workers 8
#include "lib.hpp"
#include <sstream>
#include <strings.h>
using namespace jm;
const char* const kProperty = "M06";

namespace
{
   struct Capture: public std::streambuf
   {
      std::string s;
      int overflow(int c) override
      {
         if(c >= 0)s += (char)c;
         return c;
      }
      std::streamsize xsputn(const char* p, std::streamsize n) override
      {
         s.append(p, (size_t)n);
         return n;
      }
   };
   Capture gOut;

   // an element knows its place; equality looks at the letter only
   struct Element: public Object
   {
      char letter;
      char side;
      int pos;
      Element(char l, char s, int p): letter(l), side(s), pos(p) {}
      bool equals(const Object* o) const override
      {
         auto* e = dynamic_cast<const Element*>(o);
         return e && e->letter == letter;
      }
      String displayName() const override
      {
         char b[16];
         snprintf(b, sizeof b, "%c%d", side, pos);
         return String(b);
      }
      void printDiffInfo(DiffOperation op, Object* o) const override
      {
         auto* e = dynamic_cast<const Element*>(o);
         char b[32];
         snprintf(b, sizeof b, "%s %c%d\n", op == DiffOperation::kDiffModified ? "->" : "-?", e ? e->side : '?', e ? e->pos : -1);
         gOut.s += b;
      }
   };
   struct Other: public Element
   {
      using Element::Element;
   };

   int levenshtein(const std::string& a, const std::string& b)
   {
      std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
      for(size_t i = 0; i <= a.size(); i++)for(size_t k = 0; k <= b.size(); k++)
            d[i][k] = !i ? (int)k : !k ? (int)i : std::min(std::min(d[i - 1][k], d[i][k - 1]) + 1, d[i - 1][k - 1] + (a[i - 1] != b[k - 1]));
      return d[a.size()][b.size()];
   }
   // letters from 'A' on are of another class
   struct Problem
   {
      std::string a, b;
      std::vector<std::unique_ptr<Element>> u, v;
      Problem(const std::string& a_, const std::string& b_): a(a_), b(b_)
      {
         auto mk = [](char l, char s, int p)
         {
            return std::unique_ptr<Element>(l < 'a' ? new Other(l, s, p) : new Element(l, s, p));
         };
         for(size_t i = 0; i < a.size(); i++)u.push_back(mk(a[i], 'u', (int)i));
         for(size_t i = 0; i < b.size(); i++)v.push_back(mk(b[i], 'v', (int)i));
      }
   };
   void solve(mc::Ctx& c, DiffDistance& dd, const Problem& p, DiffBacktrace* former = nullptr, size_t known = 0, size_t knownV = 0)
   {
      c.trans();
      const std::string &a = p.a, &b = p.b;
      c.state(a + "/" + b);
      // (the first ones are already there, if the object has not been cleared)
      for(size_t i = known; i < p.u.size(); i++)dd.addU(p.u[i].get());
      for(size_t i = knownV; i < p.v.size(); i++)dd.addV(p.v[i].get());
      DiffBacktrace* bt = dd.solve();
      int want = levenshtein(a, b);
      EXPECT(c, dd.distance() == want, "\"%s\" to \"%s\": distance %lld instead of %d", a.c_str(), b.c_str(), (long long)dd.distance(), want);
      EXPECT(c, bt && bt->operation() == DiffOperation::kDiffStart, "\"%s\" to \"%s\": the path does not start", a.c_str(), b.c_str());
      gOut.s.clear();
      bt->print();
      // apply the printed script
      std::string out = gOut.s;
      size_t i = 0, k = 0;
      int edits = 0;
      auto bad = [&](const char* why)
      {
         c.fail("\"%s\" to \"%s\": %s\n%s", a.c_str(), b.c_str(), why, out.c_str());
      };
      // everything up to the named positions is unchanged
      auto equalTo = [&](size_t iTo, size_t kTo)
      {
         if(iTo < i || kTo < k || iTo - i != kTo - k || iTo > a.size() || kTo > b.size())return false;
         for(; i < iTo; i++, k++)if(a[i] != b[k])return false;
         return true;
      };
      size_t at = 0;
      auto line = [&]
      {
         size_t e = out.find('\n', at);
         std::string l = out.substr(at, e == std::string::npos ? e : e - at);
         at = e == std::string::npos ? out.size() : e + 1;
         return l;
      };
      while(at < out.size())
      {
         std::string l = line();
         int x = -1, y = -1;
         char tail = 0;
         if(sscanf(l.c_str(), "A v%d%c", &x, &tail) == 1)
         {
            if((size_t)x < k || !equalTo(i + ((size_t)x - k), (size_t)x))return bad("an addition does not fit");
            k++;
         }
         else if(sscanf(l.c_str(), "D u%d%c", &x, &tail) == 1)
         {
            if((size_t)x < i || !equalTo((size_t)x, k + ((size_t)x - i)))return bad("a deletion does not fit");
            i++;
         }
         else if(sscanf(l.c_str(), "M u%d%c", &x, &tail) == 1)
         {
            std::string m = line();
            if(sscanf(m.c_str(), "-> v%d%c", &y, &tail) != 1)return bad("a modification without its object");
            if(!equalTo((size_t)x, (size_t)y))return bad("a modification does not fit");
            if(a[i] == b[k])return bad("equal elements are reported as modified");
            if((a[i] < 'a') != (b[k] < 'a'))return bad("an element of another class is not reported as replaced");
            i++, k++;
         }
         else if(sscanf(l.c_str(), "R u%d -> v%d%c", &x, &y, &tail) == 3 && tail == ':')
         {
            if(!equalTo((size_t)x, (size_t)y))return bad("a replacement does not fit");
            if((a[i] < 'a') == (b[k] < 'a'))return bad("an element of the same class is reported as replaced");
            i++, k++;
         }
         else return bad(mc::fmt("line \"%s\"", l.c_str()).c_str());
         edits++;
      }
      if(!equalTo(a.size(), b.size()))return bad("the rest differs");
      if(edits != want)return bad("the script is not minimal");
      if(former)
      {
         // copies have the same steps, outlive the original and replace what was there before
         auto printed = [](DiffBacktrace & b)
         {
            gOut.s.clear();
            b.print();
            return gOut.s;
         };
         auto copy = std::make_unique<DiffBacktrace>(*bt);
         *former = *copy;
         DiffBacktrace& same = *former;
         *former = same;
         EXPECT(c, printed(*bt) == out && printed(*copy) == out && printed(*former) == out, "\"%s\" to \"%s\": a copy of the path differs", a.c_str(), b.c_str());
         delete bt;
         EXPECT(c, printed(*copy) == out && copy->operation() == DiffOperation::kDiffStart, "\"%s\" to \"%s\": a copy of the path differs after the end of the original", a.c_str(), b.c_str());
         copy.reset();
         EXPECT(c, printed(*former) == out && former->operation() == DiffOperation::kDiffStart, "\"%s\" to \"%s\": an assigned path differs after the end of the original", a.c_str(), b.c_str());
      }
      else delete bt;
   }
   std::string word(mc::Ctx& c, int alphabet, int maxLen)
   {
      std::string s;
      for(int n = c.choose(maxLen + 1); n > 0; n--)s += "abC"[c.choose(alphabet)];
      return s;
   }
}
void defineScenarios()
{
   mc::onWorkerStart([]
   {
      System::init("");
      std::cout.rdbuf(&gOut);
   });
   mc::scenario("all pairs, 3 letters", {3, "all pairs of sequences up to length 5 (thorough 6) over 3 letters, two of one class"}, [](mc::Ctx & c)
   {
      int n = mc::tier(5, 6);
      std::string a = word(c, 3, n), b = word(c, 3, n);
      Problem p(a, b);
      gOut.s.reserve(4096);
      DiffDistance dd;
      solve(c, dd, p);
   });
   mc::scenario("entries", {2, "DiffInfo::print for all types, the four operations and all pairs of 4 to 9 values each"}, [](mc::Ctx & c)
   {
      static const DiffOperation OPS[] = {DiffOperation::kDiffAdd, DiffOperation::kDiffDelete, DiffOperation::kDiffModified, DiffOperation::kDiffStart};
      int type = c.choose(9);
      DiffOperation op = OPS[c.choose(4)];
      auto check = [&](bool differ, const std::string & x, const std::string & y, const std::string & delta)
      {
         c.trans();
         std::string want = "  lbl: " + x;
         if(op == DiffOperation::kDiffModified)want = differ ? want + " -> " + y + (delta.empty() ? "" : " delta: " + delta) + "\n" : "";
         else if(op == DiffOperation::kDiffStart)want = "";
         else want += "\n";
         EXPECT(c, gOut.s == want, "the entry for %s and %s is '%s' instead of '%s'", x.c_str(), y.c_str(), gOut.s.c_str(), want.c_str());
      };
      auto numbers = [&](auto values)
      {
         for(auto x : values)for(auto y : values)
            {
               gOut.s.clear();
               DiffInfo::print(op, x, y, "lbl");
               auto dec = [](__int128 v)
               {
                  std::string r;
                  bool neg = v < 0;
                  if(neg)v = -v;
                  do r.insert(r.begin(), (char)('0' + (int)(v % 10)));
                  while((v /= 10) != 0);
                  return (neg ? "-" : "") + r;
               };
               check(x != y, dec(x), dec(y), dec((__int128)y - (__int128)x));
            }
      };
      auto str = [](auto v)
      {
         std::ostringstream o;
         o << v;
         return o.str();
      };
      static const char* const T[] = {"", "a", "A", "ab", "aB", "b"};
      static const double D[] = {0, 1, -2.5, 1000, 0.125};
      switch(type)
      {
         case 0: return numbers(std::vector<int32> {0, 1, -1, 42, 2147483647, -2147483647 - 1});
         case 1: return numbers(std::vector<int64> {0, 1, -1, 42, 2147483648LL, -5000000000LL, 4611686018427387904LL, -4611686018427387904LL + 1});
         case 2: return numbers(std::vector<uint32> {0, 1, 42, 2147483647, 2147483648u, 4294967295u});
         case 3: return numbers(std::vector<uint64> {0, 1, 42, 4294967296ULL, 9223372036854775807ULL, 18446744073709551615ULL});
         case 4:
            for(double x : D)for(double y : D)for(double e : {0.0, 1e-15, 1e-3})
                  {
                     double z = y + e;
                     gOut.s.clear();
                     DiffInfo::print(op, x, z, "lbl");
                     check(std::fabs(x - z) > 1e-9, str(x), str(z), str(z - x));
                  }
            return;
         case 5:
         case 6:
            for(auto x : T)for(auto y : T)
               {
                  gOut.s.clear();
                  if(type == 5)DiffInfo::print(op, String(x), String(y), "lbl");
                  else DiffInfo::printIgnoreCase(op, String(x), String(y), "lbl");
                  check(type == 5 ? strcmp(x, y) != 0 : strcasecmp(x, y) != 0, x, y, "");
               }
            return;
         case 7:
            for(double x : D)for(double y : D)for(int k = 0; k < 4; k++)
                  {
                     Vertex2 a(x, y), b(k & 1 ? x + 1 : x, k & 2 ? y - 1 : y);
                     gOut.s.clear();
                     DiffInfo::print(op, a, b, "lbl");
                     auto t = [&](const Vertex2 & v)
                     {
                        return "[" + str(v.x) + " " + str(v.y) + "]";
                     };
                     check(k != 0, t(a), t(b), "");
                  }
            return;
         default:
            for(double x : D)for(double y : D)for(int k = 0; k < 8; k++)
                  {
                     Vertex3 a(x, y, x * y), b(k & 1 ? x + 1 : x, k & 2 ? y - 1 : y, k & 4 ? x * y + 3 : x * y);
                     gOut.s.clear();
                     DiffInfo::print(op, a, b, "lbl");
                     auto t = [&](const Vertex3 & v)
                     {
                        return "[" + str(v.x) + " " + str(v.y) + " " + str(v.z) + "]";
                     };
                     check(k != 0, t(a), t(b), "");
                  }
            return;
      }
   });
   mc::scenario("all pairs, 2 letters", {5, "all pairs of sequences up to length 7 (thorough 9) over 2 letters"}, [](mc::Ctx & c)
   {
      int n = mc::tier(7, 9);
      std::string a = word(c, 2, n), b = word(c, 2, n);
      Problem p(a, b);
      gOut.s.reserve(4096);
      DiffDistance dd;
      solve(c, dd, p);
   });
   mc::scenario("long", {2, "all pairs of 60 sequences of 0 to 40 elements made of up to three runs and repetitions"}, [](mc::Ctx & c)
   {
      auto pick = [&]
      {
         int i = c.choose(60);
         std::string s;
         if(i < 20)for(int k = 0; k < i * 2; k++)s += "aab"[(k * (i % 4 + 1)) % 3];
         else if(i < 40)s = std::string((size_t)(i - 20) * 2, 'a') + std::string((size_t)(i % 7), 'b') + std::string((size_t)(40 - i), 'C');
         else for(int k = 0; k < i - 20; k++)s += (char)('a' + (k * k + i) % 23);
         return s;
      };
      std::string a = pick(), b = pick();
      Problem p(a, b);
      gOut.s.reserve(4096);
      DiffDistance dd;
      solve(c, dd, p);
   });
   mc::scenario("used again", {2, "two pairs of sequences of up to 3 of 2 letters in the same object, cleared in between, or the second one appended to the first, without lasting memory"}, [](mc::Ctx & c)
   {
      std::string w[4];
      for(auto& s : w)s = word(c, 2, mc::tier(2, 3));
      bool clear = c.choose(2);
      Problem p(w[0], w[1]), q(clear ? w[2] : w[0] + w[2], clear ? w[3] : w[1] + w[3]);
      gOut.s.clear();
      gOut.s.reserve(4096);
      leakFree(c, [&]
      {
         DiffDistance dd;
         EXPECT(c, dd.distance() == 0, "a distance before the calculation");
         DiffBacktrace last;
         solve(c, dd, p, &last);
         if(clear)
         {
            dd.clear();
            EXPECT(c, dd.distance() == 0, "a distance after clear()");
         }
         solve(c, dd, q, &last, clear ? 0 : w[0].size(), clear ? 0 : w[1].size());
         });
   });
   mc::scenario("longer", {0, "44 lengths of 41..257, 8 kinds of content: equal, one element missing, added, replaced or moved at the beginning, in the middle, at the end"}, [](mc::Ctx & c)
   {
      static std::vector<int> len;
      if(len.empty())for(int i : lengths(false))if(i > 8)len.push_back(i);
      int n = len[c.choose((int)len.size())], kind = c.choose(8), at[] = {0, n / 2, n - 1}, where = at[c.choose(3)];
      std::string a, b;
      for(int i = 0; i < n; i++)a += kind % 2 ? (char)('a' + i * i % 23) : "ab"[i % 3 == 0];
      b = a;
      switch(kind / 2)
      {
         case 1: b.erase(where, 1); break;
         case 2: b[where] = 'z'; break;
         case 3: b = a.substr(where) + a.substr(0, where); break;
      }
      gOut.s.clear();
      gOut.s.reserve(65536);
      for(int turn = 0; turn < 2; turn++)
      {
         Problem p(a, b);
         DiffDistance dd;
         solve(c, dd, p);
         a.swap(b);
      }
   });
}
