// String::arg: placeholders.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "S04";

namespace
{
   // position of the placeholder to be replaced: the first one among those with the lowest number
   bool find(const std::string& t, size_t& from, size_t& to)
   {
      int best = 1000;
      for(size_t i = 0; i + 1 < t.size(); i++)
      {
         if(t[i] != '%' || !isdigit(t[i + 1]))continue;
         size_t e = i + 2;
         if(e < t.size() && isdigit(t[e]))e++;
         int n = atoi(t.substr(i + 1, e - i - 1).c_str());
         if(n < best)
         {
            best = n;
            from = i;
            to = e;
         }
      }
      return best < 1000;
   }
   std::string field(const std::string& v, int width, char fill)
   {
      std::string pad((size_t)std::max(0, std::abs(width) - (int)v.size()), fill);
      return width > 0 ? pad + v : v + pad;
   }
   std::string put(const std::string& t, const std::string& v)
   {
      size_t a, b;
      if(!find(t, a, b))return t;
      return t.substr(0, a) + v + t.substr(b);
   }
   void expect(mc::Ctx& c, const std::string& tmpl, const std::string& what, const String& got, const std::string& want)
   {
      c.trans();
      EXPECT(c, P(got) == want, "\"%s\".arg(%s) is \"%s\", expected \"%s\"", tmpl.c_str(), what.c_str(), P(got).c_str(), want.c_str());
   }
   const char A[] = "%1209a";
   std::string text(mc::Ctx& c, int maxLen, int letters)
   {
      int n = c.choose(maxLen + 1);
      std::string s;
      for(int i = 0; i < n; i++)s += A[c.choose(letters)];
      return s;
   }
   int64 kInts[] = {0, 1, -1, 7, 42, -999, 1000000, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN};
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("every template, every type of argument", {6, "every text up to length 6 / 7 over {%,1,2,0,9,a}: string, character, integers, double; the template itself unchanged"}, [](Ctx & c)
   {
      std::string t = text(c, tier(6, 7), 6);
      const String s(t.c_str());
      expect(c, t, "String", s.arg(String("xy")), put(t, "xy"));
      expect(c, t, "Char", s.arg(Char('z')), put(t, "z"));
      expect(c, t, "int64", s.arg((int64) - 12), put(t, "-12"));
      expect(c, t, "int32", s.arg((int32)34), put(t, "34"));
      expect(c, t, "uint32", s.arg((uint32)4000000000u), put(t, "4000000000"));
      expect(c, t, "uint64", s.arg((uint64)18446744073709551615ull), put(t, "18446744073709551615"));
      expect(c, t, "double", s.arg(0.5), put(t, "0,5"));
      EXPECT(c, P(s) == t, "arg() changed the template \"%s\"", t.c_str());
      c.state(t);
   });
   scenario("chains of arguments", {6, "every text up to length 7 / 8 over {%,1,2,0} x 3 arguments, which may contain placeholders themselves"}, [](Ctx & c)
   {
      std::string t = text(c, tier(7, 8), 4);
      static const char* const v[] = {"A", "%2", "%"};
      int a = c.choose(3), b = c.choose(2);
      String s(t.c_str());
      std::string want = put(put(put(t, v[a]), v[b]), "7");
      expect(c, t, fmt("\"%s\").arg(\"%s\").arg(7", v[a], v[b]), s.arg(String(v[a])).arg(String(v[b])).arg((int32)7), want);
      c.state(t);
   });
   scenario("two-digit placeholders", {6, "every pair of placeholders %0..%99 in both orders, separated or adjacent, with a digit behind"}, [](Ctx & c)
   {
      int n = c.choose(100), sep = c.choose(3);
      for(int m = 0; m < 100; m++)
      {
         std::string t = fmt("%%%d%s%%%d%s", n, sep == 0 ? "-" : "", m, sep == 2 ? "3" : "");
         expect(c, t, "String", String(t.c_str()).arg(String("one")).arg(String("two")), put(put(t, "one"), "two"));
      }
      c.state(fmt("%d %d", n, sep));
   });
   scenario("width and fill", {6, "widths -12..12, three fills, every type over boundary values, texts up to length 12"}, [](Ctx & c)
   {
      int w = c.choose(25) - 12;
      char f = " 0*"[c.choose(3)];
      std::string w_ = fmt("..., %d, '%c'", w, f);
      const String s("<%1>");
      const std::string t = "<%1>";
      for(int n = 0; n <= 12; n++)
      {
         std::string v = std::string("abcdefghijklm").substr(0, n);
         expect(c, t, w_, s.arg(String(v.c_str()), w, Char((uint16)f)), put(t, field(v, w, f)));
      }
      expect(c, t, w_, s.arg(Char('q'), w, Char((uint16)f)), put(t, field("q", w, f)));
      for(int64 v : kInts)
      {
         expect(c, t, w_, s.arg(v, w, Char((uint16)f)), put(t, field(fmt("%lld", (long long)v), w, f)));
         if(v == (int32)v)expect(c, t, w_, s.arg((int32)v, w, Char((uint16)f)), put(t, field(fmt("%d", (int)v), w, f)));
         expect(c, t, w_, s.arg((uint32)v, w, Char((uint16)f)), put(t, field(fmt("%u", (unsigned)v), w, f)));
         expect(c, t, w_, s.arg((uint64)v, w, Char((uint16)f)), put(t, field(fmt("%llu", (unsigned long long)v), w, f)));
      }
      c.state(fmt("%d %c", w, f));
   });
   scenario("doubles with width and precision", {6, "multiples of 1/8 and 1/10 in -130..130, widths -10..10, precision -1..6"}, [](Ctx & c)
   {
      int w = c.choose(21) - 10, prec = c.choose(8) - 1, ten = c.choose(2);
      char f = c.choose(2) ? ' ' : '#';
      const std::string t = "%1%";
      for(int k = -130; k <= 130; k += tier(13, 1))
      {
         // the value in units of 10^-7, rounded half away from zero to the precision
         long long n = (long long)k * (ten ? 1000000 : 1250000);
         int p = prec < 0 ? 7 : prec;
         long long unit = 1;
         for(int i = p; i < 7; i++)unit *= 10;
         long long r = (std::llabs(n) + unit / 2) / unit, one = 10000000 / unit;
         std::string v = fmt("%s%lld", n < 0 ? "-" : "", r / one);
         std::string frac = p ? fmt("%0*lld", p, r % one) : "";
         if(prec < 0)while(!frac.empty() && frac.back() == '0')frac.pop_back();
         if(!frac.empty())v += "," + frac;
         if(r == 0 && n < 0)continue; // sign of a rounded zero: not specified
         double x = ten ? k / 10.0 : k / 8.0;
         expect(c, t, fmt("%g, %d, %d, '%c'", x, w, prec, f), String(t.c_str()).arg(x, w, prec, Char((uint16)f)), put(t, field(v, w, f)));
      }
      c.state(fmt("%d %d %d %c", w, prec, ten, f));
   });
   scenario("long templates and arguments", {1, "64 lengths up to 100000 (placeholders: 257): text before, between and behind placeholders, that many placeholders, arguments and fields of that length"}, [](Ctx & c)
   {
      int n = farLengths()[c.choose((int)farLengths().size())], kind = c.choose(4);
      if(n > 300 && kind == 3)return;
      std::string fill;
      for(int i = 0; i < n; i++)fill += (char)('a' + i % 26);
      std::string t = kind == 0 ? fill + "%1" + fill + "%2" + fill : kind == 1 ? "%2" + fill + "%1" : kind == 2 ? "(%1)" : "";
      if(kind == 3)for(int i = 0; i < n; i++)t += "%" + std::to_string(1 + i * 7 % 99) + ",";
      std::string want = t;
      String s(t.c_str());
      for(int i = 0; i < (kind == 3 ? n + 1 : 3); i++)
      {
         std::string v = i % 2 ? "short" : kind == 3 ? "v" : fill;
         want = put(want, v);
         s = s.arg(String(v.c_str()));
         expect(c, t, v, s, want);
      }
      String f("[%1]");
      for(int w : {n, -n})
      {
         expect(c, "[%1]", "int32 in a field", f.arg((int32) - 12, w, Char('.')), "[" + field("-12", w, '.') + "]");
         expect(c, "[%1]", "String in a field", f.arg(String(fill.substr(0, n / 2).c_str()), w), "[" + field(fill.substr(0, n / 2), w, ' ') + "]");
      }
      c.state(n * 4 + kind);
   });
}
