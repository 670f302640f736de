// Equality, hash codes and the orderings of strings fit together, whatever was done to the string
// before and whether or not its hash code had been computed already.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "S02";

namespace
{
   using str = std::u16string;
   void coherent(mc::Ctx& c, String& s, bool ask)
   {
      String fresh = J(U(s));
      int64 h = fresh.constHashCode();
      EXPECT(c, s.constHashCode() == h, "hash code of \"%s\" is %lld, of an equal fresh string %lld", P(s).c_str(), (long long)s.constHashCode(), (long long)h);
      EXPECT(c, fresh.hashCode() == h && fresh.hashCode() == h && fresh.constHashCode() == h, "the hash code of \"%s\" changes when it is asked for again", P(s).c_str());
      EXPECT(c, s.equals(fresh) && fresh == s && !(s != fresh) && s.compareTo(fresh) == 0 && s.equalsIgnoreCase(fresh), "a string differs from a copy of its text");
      const Object* o = &fresh;
      EXPECT(c, s.equals(o), "equals(Object*)");
      c.trans(8);
      if(ask)EXPECT(c, s.hashCode() == h && s.hashCode() == h, "hashCode() of \"%s\"", P(s).c_str());
   }
   int sgn(int64 v)
   {
      return v < 0 ? -1 : v > 0;
   }
   str word(mc::Ctx& c, int maxLen, const str& alpha)
   {
      str r;
      int len = c.choose(maxLen + 1);
      for(int i = 0; i < len; i++)r += alpha[c.choose((int)alpha.size())];
      return r;
   }
   std::vector<str> words(int maxLen, const str& alpha)
   {
      std::vector<str> r = {u""};
      size_t from = 0;
      for(int l = 0; l < maxLen; l++)
      {
         size_t to = r.size();
         for(; from < to; from++)for(char16_t ch : alpha)r.push_back(r[from] + ch);
      }
      return r;
   }
   // numbers compare by value, everything else by code unit; a number and a character by value and code unit
   std::vector<uint64_t> fancy(const str& s)
   {
      std::vector<uint64_t> r;
      for(size_t i = 0; i < s.size(); i++)
      {
         if(s[i] >= '0' && s[i] <= '9')
         {
            uint64_t v = 0;
            while(i < s.size() && s[i] >= '0' && s[i] <= '9')
            {
               uint64_t d = s[i++] - '0';
               v = v > (UINT64_MAX - d) / 10 ? UINT64_MAX : v * 10 + d; // all numbers too large are alike
            }
            i--;
            r.push_back(v);
         }
         else r.push_back(s[i]);
      }
      return r;
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   assume("the numbers compareFancyTo() compares are alike from 2^64-1 on");
   scenario("hash codes across every change", {3, "5 start texts (short, hash code zero, hash code above 2^31, at buffer size, empty), hash code asked or not before each step; 18 operations; depth 3"}, [](Ctx & c)
   {
      static const std::vector<str> starts = {u"aBc", u"", u"The Quick Brown Fox", u"zzzzzzzzzzzzzzzz", u"\u00c4xy%1"};
      String s = J(starts[c.choose((int)starts.size())]);
      String other = J(u"Other%1");
      other.hashCode();
      int depth = tier(3, 3);
      for(int d = 0; d < depth; d++)
      {
         if(c.choose(2))
         {
            c.step("hashCode()");
            s.hashCode();
         }
         int op = c.choose(19);
         c.step("operation %d on \"%s\"", op, P(s).c_str());
         int64 n = s.size();
         switch(op)
         {
            case 0: s = s.toLowerCase(); break;
            case 1: s = s.toUpperCase(); break;
            case 2: s = s.replace(Char('B'), Char('Q')); break;
            case 3: s = s.replace(J(u"zz"), J(u"y")); break;
            case 4: s = s.reverse(); break;
            case 5: s.append(other); break;
            case 6: s.append('x'); break;
            case 7: s.insert(n / 2, Char('x')); break;
            case 8: s.insert(0, other); break;
            case 9: if(n)s.setCharAt(n - 1, Char('#')); break;
            case 10: if(n)s.deleteCharAt(0); break;
            case 11: s.deleteCharRangeAt(n / 2, n - n / 2); break;
            case 12: s.zero(); break;
            case 13: s.clear(); break;
            case 14: s = other; break;
            case 15:
            {
               String t(s);
               s = t;
               break;
            }
            case 16: s = s.substring(n / 2); break;
            case 17: s = s.trim(); break;
            case 18: s = s.arg(J(u"v")); break;
         }
         coherent(c, s, d == depth - 1);
         coherent(c, other, true);
         c.state(P(s));
      }
   });
   scenario("orderings on all pairs and triples", {2, "all words over {a,B,b,A-umlaut} up to length 3 (85 words): every pair; every triple of words up to length 2"}, [](Ctx & c)
   {
      static const std::vector<str> w = words(3, u"aBb\u00c4");
      int i = c.choose((int)w.size()), j = c.choose((int)w.size());
      String a = J(w[i]), b = J(w[j]);
      c.step("\"%s\" / \"%s\"", P(a).c_str(), P(b).c_str());
      int want = w[i] < w[j] ? -1 : w[i] > w[j];
      EXPECT(c, sgn(a.compareTo(b)) == want, "compareTo");
      EXPECT(c, sgn(b.compareTo(a)) == -want, "compareTo is not antisymmetric");
      EXPECT(c, (a < b) == (want < 0), "operator<");
      EXPECT(c, (a == b) == (want == 0) && (a != b) == (want != 0) && a.equals(b) == (want == 0), "equality does not fit the order");
      if(want == 0)EXPECT(c, a.constHashCode() == b.constHashCode(), "equal strings with different hash codes");
      EXPECT(c, a.equalsIgnoreCase(b) == b.equalsIgnoreCase(a), "equalsIgnoreCase is not symmetric");
      EXPECT(c, a.equalsIgnoreCase(b) == (a.toLowerCase() == b.toLowerCase()), "equalsIgnoreCase does not fit toLowerCase");
      c.trans(7);
      c.state(P(w[i]) + "/" + P(w[j]));
   });
   scenario("number-aware ordering", {2, "all words over {a,b,0,1,2} up to length 3 / 4: every pair against the model, every triple (length <= 2) for transitivity; numbers up to 28 digits"}, [](Ctx & c)
   {
      static const std::vector<str> w = words(tier(3, 4), u"ab012");
      static const std::vector<str> w2 = words(2, u"ab012");
      static const std::vector<str> big = {u"x9", u"x10", u"x010", u"x99", u"x100", u"x999999999", u"x100000000", u"x4294967295", u"x4294967296", u"x4294967297", u"x1000000002", u"x1000000010", u"x9999999999", u"x10000000000", u"x1234567890123456789", u"x1234567890123456788", u"x18446744073709551614", u"x18446744073709551615", u"x0000000000000000000000000001", u"x1y2", u"x1y10", u"x01y3", u"x", u"xy"};
      int mode = c.choose(3);
      auto cmp = [&](const str & x, const str & y)
      {
         c.trans();
         return sgn(J(x).compareFancyTo(J(y)));
      };
      if(mode < 2)
      {
         auto& l = mode ? big : w;
         const str& x = l[c.choose((int)l.size())];
         for(auto& y : l)
         {
            auto fx = fancy(x), fy = fancy(y);
            int want = fx < fy ? -1 : fx > fy;
            EXPECT(c, cmp(x, y) == want, "compareFancyTo(\"%s\", \"%s\") is %d, expected %d", P(x).c_str(), P(y).c_str(), cmp(x, y), want);
         }
         c.state(P(x));
      }
      else
      {
         const str& x = w2[c.choose((int)w2.size())];
         for(auto& y : w2)for(auto& z : w2)
            {
               EXPECT(c, !(cmp(x, y) <= 0 && cmp(y, z) <= 0) || cmp(x, z) <= 0, "compareFancyTo is not transitive");
            }
      }
   });
   scenario("characters: all 65536 code units", {1, "each code unit: case mapping, classes, digit value, all comparisons with 18 others"}, [](Ctx & c)
   {
      int hi = c.choose(256);
      for(int lo = 0; lo < 256; lo++)
      {
         unsigned u = hi * 256 + lo;
         Char x((uint16)u);
         c.trans(6);
         unsigned l = x.toLowerCase().unicode(), up = x.toUpperCase().unicode();
         EXPECT(c, x.unicode() == u, "unicode() of U+%04X", u);
         EXPECT(c, x.isDigit() == (u >= '0' && u <= '9'), "isDigit() of U+%04X", u);
         EXPECT(c, x.digitValue() == (u >= '0' && u <= '9' ? (int)u - '0' : -1), "digitValue() of U+%04X", u);
         EXPECT(c, x.isWhitespace() == (u == ' ' || u == '\r' || u == '\n' || u == '\t' || u == '\b' || u == '\f'), "isWhitespace() of U+%04X", u);
         EXPECT(c, x.isLetter() == (x.isUpperCase() || x.isLowerCase()) && !(x.isUpperCase() && x.isLowerCase()), "letter classes of U+%04X", u);
         if(u < 128)
         {
            EXPECT(c, x.isUpperCase() == (u >= 'A' && u <= 'Z') && x.isLowerCase() == (u >= 'a' && u <= 'z'), "case class of U+%04X", u);
            EXPECT(c, l == (unsigned)tolower(u) && up == (unsigned)toupper(u), "case mapping of U+%04X", u);
         }
         if(u == 0xc4 || u == 0xd6 || u == 0xdc)EXPECT(c, l == u + 32 && up == u, "case mapping of the umlaut U+%04X", u);
         if(u == 0xe4 || u == 0xf6 || u == 0xfc)EXPECT(c, up == u - 32 && l == u, "case mapping of the umlaut U+%04X", u);
         EXPECT(c, Char((uint16)l).toLowerCase().unicode() == l && Char((uint16)up).toUpperCase().unicode() == up, "case mapping of U+%04X is not idempotent", u);
         if(l != u)EXPECT(c, Char((uint16)l).toUpperCase().unicode() == u, "U+%04X does not come back from lower case", u);
         if(up != u)EXPECT(c, Char((uint16)up).toLowerCase().unicode() == u, "U+%04X does not come back from upper case", u);
         if(!x.isLetter() && u < 256)EXPECT(c, l == u && up == u, "case mapping changes U+%04X, which is no letter", u);
         EXPECT(c, (x == Char((uint16)u)) && !(x != Char((uint16)u)) && !(x < Char((uint16)u)), "comparison of U+%04X with itself", u);
         if(u)EXPECT(c, Char((uint16)(u - 1)) < x && x > Char((uint16)(u - 1)), "order of U+%04X", u);
         static const unsigned V[] = {0, 1, ' ', '0', 'A', 'a', 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xd800, 0xdfff, 0xfffe, 0xffff};
         for(int i = 0; i < 18; i++)
         {
            unsigned v = i < 16 ? V[i] : i == 16 ? u : u ^ 0x8000;
            Char y((uint16)v);
            EXPECT(c, (x == y) == (u == v) && (x != y) == (u != v) && (x < y) == (u < v) && (x <= y) == (u <= v) && (x > y) == (u > v) && (x >= y) == (u >= v), "comparison of U+%04X and U+%04X", u, v);
         }
      }
      c.state((uint64_t)hi + 1);
   });
   scenario("long texts", {1, "54 lengths up to 257, 4 alphabets: hash codes, equality and order of texts which differ in no or one place"}, [](Ctx & c)
   {
      static const std::vector<str> alpha = {u"a", u"abcdefghijklmnopqrstuvwxyz", u"zyx \u00e4\u20ac", u"0"};
      int n = lengths(false)[c.choose((int)lengths(false).size())], kind = c.choose(4);
      str a;
      for(int i = 0; i < n; i++)a += alpha[kind][i * 7 % alpha[kind].size()];
      String x = J(a);
      coherent(c, x, true);
      coherent(c, x, true);
      String grown; // the same text, made piece by piece, asked for its hash code in between
      for(int i = 0; i < n; i++)
      {
         grown.append(Char((uint16)a[i]));
         if(i % 16 == 5)grown.hashCode();
      }
      EXPECT(c, grown.hashCode() == x.hashCode() && grown == x && grown.compareTo(x) == 0, "a text of %d characters made piece by piece", n);
      str al = a;
      for(int at = 0; at < n; at++)
      {
         if(n > 70 && at % 16 && at < n - 3)continue;
         str b = a;
         b[at]++;
         String y = J(b);
         c.trans(4);
         EXPECT(c, !(x == y) && x != y && !x.equals(y) && x.compareTo(y) < 0 && y.compareTo(x) > 0 && x < y && !(y < x), "texts of %d characters which differ at %d", n, at);
         EXPECT(c, x.constHashCode() != y.constHashCode() || kind < 0, "texts of %d characters which differ by one at %d have the same hash code", n, at);
         y.setCharAt(at, Char((uint16)a[at]));
         EXPECT(c, x == y && x.hashCode() == y.hashCode(), "a text of %d characters changed back at %d", n, at);
      }
      str b = a + u"q";
      EXPECT(c, x.compareTo(J(b)) < 0 && J(b).compareTo(x) > 0 && x != J(b), "a text of %d characters and its continuation", n);
      EXPECT(c, x.toUpperCase().equalsIgnoreCase(x) && x.equalsIgnoreCase(x.toUpperCase()), "equalsIgnoreCase() of a text of %d characters", n);
      c.state(n * 4 + kind);
   });
   scenario("texts with equal hash codes", {2, "all words of up to 3 of the parts Aa, BB, C#, aa, zero, A, which agree in their hash codes in many ways: every pair, the hash codes asked for before the comparison or not"}, [](Ctx & c)
   {
      static const std::vector<str> parts = {u"Aa", u"BB", u"C#", u"aa", str(1, u'\0'), u"A"};
      static std::vector<str> w;
      if(w.empty())
      {
         w.push_back(u"");
         size_t from = 0;
         for(int l = 0; l < 3; l++)
         {
            size_t to = w.size();
            for(; from < to; from++)for(auto& p : parts)w.push_back(w[from] + p);
         }
      }
      auto bare = [](const str & x)
      {
         return String((const uint16*)x.data(), (int64)x.size());
      };
      int i = c.choose((int)w.size()), asked = c.choose(4);
      for(size_t j = 0; j < w.size(); j++)
      {
         String a = bare(w[i]), b = bare(w[j]);
         if(asked & 1)a.hashCode();
         if(asked & 2)b.hashCode();
         bool want = w[i] == w[j];
         int order = w[i] < w[j] ? -1 : !want;
         c.trans(5);
         EXPECT(c, a.equals(b) == want && b.equals(a) == want && (a == b) == want && (a != b) == !want, "equality of '%s' and '%s' with the hash codes %lld and %lld", P(a).c_str(), P(b).c_str(), (long long)a.constHashCode(), (long long)b.constHashCode());
         EXPECT(c, sgn(a.compareTo(b)) == order, "order of '%s' and '%s'", P(a).c_str(), P(b).c_str());
         EXPECT(c, a.equals((const Object*)&b) == want, "equals(Object*) of '%s' and '%s'", P(a).c_str(), P(b).c_str());
         String k = a;
         EXPECT(c, k.equals(b) == want, "equality of a copy of '%s' and '%s'", P(a).c_str(), P(b).c_str());
         EXPECT(c, a.startsWith(b) == (w[i].substr(0, w[j].size()) == w[j]), "startsWith");
         if(a.equalsIgnoreCase(b))EXPECT(c, a.toLowerCase() == b.toLowerCase(), "equalsIgnoreCase");
      }
      c.state(i * 4 + asked);
   });
   scenario("very long texts", {1, "10 lengths up to 100000: equality, hash codes and all orders of texts which differ in no or one place, or in their length"}, [](Ctx & c)
   {
      static const int N[] = {300, 1024, 1025, 4096, 32768, 65535, 65536, 65537, 70000, 100000};
      int n = N[c.choose(10)], kind = c.choose(2);
      str a;
      for(int i = 0; i < n; i++)a += kind ? (char16_t)('a' + i % 7) : i % 3 == 2 ? u'7' : u'x';
      String x = J(a);
      coherent(c, x, true);
      for(int at : {0, 1, 100, 254, 255, 256, 257, 299, n / 2, n - 65536, n - 300, n - 256, n - 2, n - 1})
      {
         if(at < 0 || at >= n)continue;
         str b = a;
         b[at] = a[at] == u'7' ? u'8' : (char16_t)(a[at] + 1);
         String y = J(b);
         c.trans(8);
         EXPECT(c, !(x == y) && x != y && !x.equals(y) && x.compareTo(y) < 0 && y.compareTo(x) > 0 && x < y && !(y < x) && !x.equalsIgnoreCase(y), "texts of %d characters which differ at %d", n, at);
         EXPECT(c, x.compareFancyTo(y) < 0 && y.compareFancyTo(x) > 0, "number-aware order of texts of %d characters which differ at %d", n, at);
      }
      String y = J(a + u"x"), z = J(a);
      EXPECT(c, x.compareTo(y) < 0 && y.compareTo(x) > 0 && x != y && x.compareFancyTo(y) < 0 && y.compareFancyTo(x) > 0, "a text of %d characters and its continuation", n);
      EXPECT(c, x == z && x.compareFancyTo(z) == 0 && x.hashCode() == z.hashCode(), "equal texts of %d characters", n);
      EXPECT(c, x.toUpperCase().equalsIgnoreCase(x) && x.toUpperCase().toLowerCase() == x, "letter case of a text of %d characters", n);
      c.state(n * 2 + kind);
   });
}
