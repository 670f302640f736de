// Numbers and text.
#include "lib.hpp"
#include <iomanip>
#include <sstream>
using namespace jm;
const char* const kProperty = "S03";

namespace
{
   using I = __int128;
   std::string dec(I n)
   {
      if(n == 0)return "0";
      bool neg = n < 0;
      if(neg)n = -n;
      std::string r;
      while(n > 0)
      {
         r.insert(r.begin(), (char)('0' + (int)(n % 10)));
         n /= 10;
      }
      return neg ? "-" + r : r;
   }
   std::string hex(uint64 n)
   {
      if(n == 0)return "0";
      std::string r;
      while(n > 0)
      {
         r.insert(r.begin(), "0123456789ABCDEF"[n & 15]);
         n >>= 4;
      }
      return r;
   }
   void integer(mc::Ctx& c, I n)
   {
      c.trans();
      std::string d = dec(n);
      std::u16string u = U(d.c_str());
#define SAME(expr, name) do { String s_ = expr; EXPECT(c, U(s_) == u, name " of %s is \"%s\"", d.c_str(), P(s_).c_str()); } while(0)
      if(n >= INT64_MIN && n <= INT64_MAX)
      {
         int64 v = (int64)n;
         SAME(String::valueOf(v), "valueOf(int64)");
         String o;
         o << v;
         SAME(o, "<< int64");
         EXPECT(c, U(String("x") + v) == u"x" + u && U(v + String("x")) == u + u"x", "+ int64 of %s", d.c_str());
         EXPECT(c, String(d.c_str()).toInt() == v, "toInt() of %s", d.c_str());
         EXPECT(c, Integer::digits(v) == d.size(), "digits(%s) is %d", d.c_str(), Integer::digits(v));
         String h = Integer::toHexString(v);
         EXPECT(c, U(h) == U(hex((uint64)v).c_str()), "toHexString(%s) is \"%s\"", d.c_str(), P(h).c_str());
         EXPECT(c, Integer::fromHex(h) == v && Integer::fromHex(h.toLowerCase()) == v, "fromHex(\"%s\")", P(h).c_str());
         String wrapped = String("f") + h + "3";
         EXPECT(c, Integer::fromHex(wrapped, 1, (uint32)h.size()) == v, "fromHex() of the middle of \"%s\"", P(wrapped).c_str());
         if(n >= INT32_MIN && n <= INT32_MAX)
         {
            SAME(String::valueOf((int32)n), "valueOf(int32)");
            String q;
            q << (int32)n;
            SAME(q, "<< int32");
         }
         else EXPECT(c, String(d.c_str()).toInt() == v, "toInt() of %s", d.c_str());
      }
      else
      {
         EXPECT(c, threw([&] { String(d.c_str()).toInt(); }), "toInt() accepts %s, which is no int64", d.c_str());
      }
      if(n >= 0 && n <= (I)UINT64_MAX)
      {
         SAME(String::valueOf((uint64)n), "valueOf(uint64)");
         String o;
         o << (uint64)n;
         SAME(o, "<< uint64");
         if(n <= (I)UINT32_MAX)
         {
            SAME(String::valueOf((uint32)n), "valueOf(uint32)");
            String q;
            q << (uint32)n;
            SAME(q, "<< uint32");
         }
      }
   }
   const I kBase[] = {(I)1 << 7, (I)1 << 8, (I)1 << 15, (I)1 << 16, (I)1 << 31, (I)1 << 32, (I)1 << 52, (I)1 << 53, (I)1 << 62, (I)1 << 63, (I)1 << 64,
                      1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000LL, 100000000000LL, 1000000000000LL, 10000000000000LL,
                      100000000000000LL, 1000000000000000LL, 10000000000000000LL, 100000000000000000LL, 1000000000000000000LL, (I)10000000000000000000ULL,
                      (I)10000000000000000000ULL * 10};
   std::string roman(int n)
   {
      const char* one[4][10] =
      {
         {"", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX"}, {"", "X", "XX", "XXX", "XL", "L", "LX", "LXX", "LXXX", "XC"},
         {"", "C", "CC", "CCC", "CD", "D", "DC", "DCC", "DCCC", "CM"}, {"", "M", "MM", "MMM", "", "", "", "", "", ""}
      };
      return std::string(one[3][n / 1000]) + one[2][n / 100 % 10] + one[1][n / 10 % 10] + one[0][n % 10];
   }
   // value of the text printed by valueOf(double, ...); false if it is not well-formed
   bool printed(const std::string& s, int prec, bool trunc, long double& iv, long double& v, bool& neg, bool& zero)
   {
      size_t i = 0;
      neg = false;
      zero = true;
      v = iv = 0;
      if(i < s.size() && s[i] == '-')neg = true, i++;
      size_t d0 = i;
      while(i < s.size() && isdigit(s[i]))
      {
         iv = iv * 10 + (s[i] - '0');
         if(s[i] != '0')zero = false;
         i++;
      }
      if(i == d0 || (s[d0] == '0' && i > d0 + 1))return false;
      int k = 0;
      if(i < s.size() && s[i] == ',')
      {
         i++;
         long double f = 0.1L;
         size_t f0 = i;
         while(i < s.size() && isdigit(s[i]))
         {
            v += (s[i] - '0') * f;
            if(s[i] != '0')zero = false;
            f /= 10;
            i++;
            k++;
         }
         if(i == f0)return false;
         if(trunc && s.back() == '0')return false;
      }
      if(i != s.size())return false;
      return trunc ? k <= prec : k == prec;
   }
   void real(mc::Ctx& c, double x, int prec, bool trunc)
   {
      c.trans();
      String s = String::valueOf(x, prec, trunc);
      std::string t = P(s);
      long double iv, v;
      bool neg, zero;
      EXPECT(c, printed(t, prec, trunc, iv, v, neg, zero), "valueOf(%.17g, %d, %d) is \"%s\"", x, prec, trunc, t.c_str());
      long double unit = powl(10, -prec);
      EXPECT(c, fabsl((iv - floorl(fabsl(x))) + (v - fmodl(fabsl(x), 1))) <= unit / 2 + 1e-15L, "valueOf(%.17g, %d, %d) is \"%s\": not the nearest decimal", x, prec, trunc, t.c_str());
      if(!zero)EXPECT(c, neg == (x < 0), "valueOf(%.17g, %d, %d) is \"%s\": sign", x, prec, trunc, t.c_str());
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   mc::assume("doubles printed with a precision: magnitude below 9e15, precision 0..10; parsed texts up to the given length");
   scenario("all small integers", {8, "-60000..60000 / -2000000..2000000: every conversion, both directions"}, [](Ctx & c)
   {
      int k = c.choose(tier(120, 4000));
      for(int i = 0; i < 1000; i++)integer(c, (I)(k - tier(60, 2000)) * 1000 + i);
      c.state(k);
   });
   scenario("integers around every power of two and ten", {8, "29 bases and their negatives, +-400 / 5000 around each, in every integer type that holds them; the others rejected by toInt()"}, [](Ctx & c)
   {
      int b = c.choose(29), neg = c.choose(2), off = c.choose(tier(8, 100));
      for(int i = 0; i < 100; i++)
      {
         I n = kBase[b] + off * 100 + i - tier(400, 5000);
         integer(c, neg ? -n : n);
      }
      c.state(fmt("%d %d %d", b, neg, off));
   });
   scenario("integers of every digit pattern", {8, "up to 20 digits: d repeated, 1 followed by d, d000e, alternating d and e"}, [](Ctx & c)
   {
      int len = 1 + c.choose(20), d = c.choose(10), e = c.choose(10), pat = c.choose(4), neg = c.choose(2);
      I n = 0;
      for(int i = 0; i < len; i++)
      {
         int g = 0;
         switch(pat)
         {
            case 0: g = i & 1 ? e : d; break;
            case 1: g = i == 0 ? d : e; break;
            case 2: g = i == len - 1 ? e : i == 0 ? d : 0; break;
            case 3: g = i < len / 2 ? d : e; break;
         }
         n = n * 10 + g;
      }
      integer(c, neg ? -n : n);
      c.state(dec(n));
   });
   scenario("roman and alphabetic numbers", {6, "every number 1..3999, every alphabetic number up to 3 / 4 letters"}, [](Ctx & c)
   {
      int k = c.choose(tier(20, 480));
      for(int n = k * 1000 + 1; n <= k * 1000 + 1000; n++)
      {
         c.trans();
         if(n <= 3999)
         {
            String r = Integer::toRomanString(n);
            EXPECT(c, P(r) == roman(n), "toRomanString(%d) is \"%s\"", n, P(r).c_str());
         }
         std::string a;
         for(int m = n; m > 0; m = (m - 1) / 26)a.insert(a.begin(), (char)('A' + (m - 1) % 26));
         String l = Integer::toLatinAlphabetString(n);
         EXPECT(c, P(l) == a, "toLatinAlphabetString(%d) is \"%s\"", n, P(l).c_str());
      }
      c.state(k);
   });
   scenario("text to integer", {6, "every text up to length 5 / 6 over {0,1,9,-,+,.,a,space}"}, [](Ctx & c)
   {
      const char A[] = "019-+.a ";
      int len = 1 + c.choose(tier(4, 5));
      std::string s;
      for(int i = 0; i < len; i++)s += A[c.choose(8)];
      size_t i = s[0] == '-';
      bool ok = i < s.size();
      for(; i < s.size(); i++)ok = ok && isdigit(s[i]);
      if(s == "-")return; // nothing said about a sign alone
      c.trans();
      c.state(s);
      int64 v = 0;
      bool t = ok ? false : threw([&] { v = String(s.c_str()).toInt(); });
      if(ok)
      {
         v = String(s.c_str()).toInt();
         EXPECT(c, v == atoll(s.c_str()), "\"%s\".toInt() is %lld", s.c_str(), (long long)v);
      }
      else EXPECT(c, t, "\"%s\".toInt() is accepted", s.c_str());
   });
   scenario("doubles with a precision", {8, "k/10^q for |k| up to 1500 / 100000 and q 0..6, precision 0..10, with and without cutting zeros"}, [](Ctx & c)
   {
      int q = c.choose(7), prec = c.choose(11), trunc = c.choose(2), blk = c.choose(tier(3, 200));
      for(int i = 0; i < 500; i++)
      {
         double x = (blk * 500 + i) / pow(10, q);
         real(c, x, prec, trunc);
         real(c, -x, prec, trunc);
         real(c, nextafter(x, 1e9), prec, trunc);
         real(c, x + 4096, prec, trunc);
      }
      c.state(fmt("%d %d %d %d", q, prec, trunc, blk));
   });
   scenario("doubles next to powers", {8, "10^k and 2^k for k -20..49 with neighbours and offsets, precision 0..10"}, [](Ctx & c)
   {
      int k = c.choose(70) - 20, ten = c.choose(2), prec = c.choose(11), trunc = c.choose(2);
      double b = ten ? pow(10, std::min(k, 15)) : ldexp(1, k);
      const double o[] = {0, 0.5, -0.5, 1, -1, 0.25, 1e-3, -1e-3, 1e-6, -1e-6, 0.999999, 0.05, 0.005};
      for(double d : o)for(int s = 0; s < 2; s++)for(int n = -1; n <= 1; n++)
            {
               double x = b + d;
               if(n)x = nextafter(x, n * 1e18);
               real(c, s ? -x : x, prec, trunc);
            }
      c.state(fmt("%d %d %d", k, ten, prec));
   });
   scenario("doubles without precision, and back", {8, "m * 10^e for m up to 999 / 9999, e -30..30, both signs: ten significant digits; text to double is the nearest value"}, [](Ctx & c)
   {
      int e = c.choose(61) - 30, neg = c.choose(2), blk = c.choose(tier(10, 100));
      for(int i = 0; i < 100; i++)
      {
         c.trans();
         int m = blk * 100 + i;
         std::string t = fmt("%s%de%d", neg ? "-" : "", m, e);
         double x = strtod(t.c_str(), nullptr);
         String s = String::valueOf(x);
         EXPECT(c, P(s) == fmt("%.10g", x), "valueOf(%.17g) is \"%s\"", x, P(s).c_str());
         String o;
         o << x;
         EXPECT(c, U(o) == U(s), "<< %.17g is \"%s\"", x, P(o).c_str());
         EXPECT(c, U(String("x") + x) == u"x" + U(s) && U(x + String("x")) == U(s) + u"x", "+ %.17g", x);
         EXPECT(c, String(t.c_str()).toDouble() == x, "\"%s\".toDouble()", t.c_str());
         std::string f = fmt("%.17g", x / 3);
         EXPECT(c, String(f.c_str()).toDouble() == x / 3, "\"%s\".toDouble()", f.c_str());
         std::string p = fmt("%s%d.%03d", neg ? "-" : "", m, (m * 7 + e + 30) % 1000);
         EXPECT(c, String(p.c_str()).toDouble() == strtod(p.c_str(), nullptr), "\"%s\".toDouble()", p.c_str());
         std::string comma = p;
         for(char& ch : comma)if(ch == '.')ch = ',';
         EXPECT(c, ConvertToDouble(comma.c_str()) == strtod(p.c_str(), nullptr) && ConvertToDouble(p.c_str()) == strtod(p.c_str(), nullptr), "ConvertToDouble(\"%s\")", comma.c_str());
      }
      c.state(fmt("%d %d %d", e, neg, blk));
   });
   scenario("truth values", {4, "true, false, upper and lower case, others"}, [](Ctx & c)
   {
      EXPECT(c, P(String::valueOf(true)) == "true" && P(String::valueOf(false)) == "false", "valueOf(bool)");
      int m = c.choose(16);
      std::string s = "true";
      for(int i = 0; i < 4; i++)if(m & (1 << i))s[i] = (char)toupper(s[i]);
      EXPECT(c, String(s.c_str()).toBool(), "\"%s\".toBool()", s.c_str());
      for(int i = 0; i <= 4; i++)
      {
         std::string t = s;
         if(i == 4)t += "e";
         else t.erase(i, 1);
         EXPECT(c, !String(t.c_str()).toBool(), "\"%s\".toBool()", t.c_str());
      }
      EXPECT(c, !String("false").toBool() && !String("").toBool(), "toBool()");
      c.state(m);
   });
}
