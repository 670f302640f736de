// DateFormatter: all patterns against an independent formatter.
// mc: workers 8
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "D02";

namespace
{
   struct Fields
   {
      int64 t;
      int year, month, date, week, ofYear, h, mi, s, ms;
   };
   // written down by hand
   const Fields F[] =
   {
      {0, 1970, 1, 1, 4, 1, 0, 0, 0, 0},
      {-1, 1969, 12, 31, 3, 365, 23, 59, 59, 999},
      {951827696789LL, 2000, 2, 29, 2, 60, 12, 34, 56, 789},
      {1099267269007LL, 2004, 11, 1, 1, 306, 0, 1, 9, 7},
      {-2203891199950LL, 1900, 3, 1, 4, 60, 0, 0, 1 - 1, 50},
      {253402300799099LL, 9999, 12, 31, 5, 365, 23, 59, 59, 99},
      {1252800010010LL, 2009, 9, 13, 0, 256, 0, 0, 10, 10},
      {1789200549100LL, 2026, 9, 12, 6, 255, 8, 9, 9, 100},
      {-62135596800000LL, 1, 1, 1, 1, 1, 0, 0, 0, 0},
   };
   const int kDates = sizeof(F) / sizeof(F[0]);
   std::string pad(int v, int n)
   {
      std::string s = std::to_string(v);
      while((int)s.size() < n)s = "0" + s;
      return s;
   }
   std::string symbol(char16_t c, int n, const Fields& f)
   {
      static const char* const day[] = {"Sonntag", "Montag", "Dienstag", "Mittwoch", "Donnerstag", "Freitag", "Samstag"};
      static const char* const mon[] = {"Jan", "Feb", "Mrz", "Apr", "Mai", "Jun", "Jul", "Aug", "Sep", "Okt", "Nov", "Dez"};
      static const char* const month[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
      switch(c)
      {
         case 'y':
            return n == 2 ? pad(f.year % 100, 2) : std::to_string(f.year);
         case 'M':
            return n < 3 ? pad(f.month, n) : n == 3 ? mon[f.month - 1] : month[f.month - 1];
         case 'd':
            return pad(f.date, n == 2 ? 2 : 1);
         case 'D':
            return std::to_string(f.ofYear);
         case 'E':
            return n < 3 ? std::string(day[f.week]).substr(0, n) : day[f.week];
         case 'H':
            return pad(f.h, n == 2 ? 2 : 1);
         case 'm':
            return pad(f.mi, n == 2 ? 2 : 1);
         case 's':
            return pad(f.s, n == 2 ? 2 : 1);
         case 'S':
            return pad(f.ms, n > 1 ? 3 : 1);
      }
      return "";
   }
   // pieces: a run of one character outside of quotes, or all between two quotes
   std::u16string reference(const std::u16string& p, const Fields& f)
   {
      std::u16string out;
      size_t i = 0;
      while(i < p.size())
      {
         if(p[i] == '\'')
         {
            size_t e = p.find(u'\'', i + 1);
            out += p.substr(i + 1, e - i - 1);
            i = e + 1;
            continue;
         }
         size_t e = i;
         while(e < p.size() && p[e] == p[i])e++;
         if(std::u16string(u"yMdDEHmsS").find(p[i]) == std::u16string::npos)out += p.substr(i, e - i);
         else for(char ch : symbol(p[i], (int)(e - i), f))out += (char16_t)ch;
         i = e;
      }
      return out;
   }
   void run(mc::Ctx& c, const std::u16string& p)
   {
      DateFormatter df(J(p));
      for(int k = 0; k < kDates; k++)
      {
         c.trans();
         Date d(F[k].t);
         std::u16string want = reference(p, F[k]), got = U(df.format(d));
         EXPECT(c, got == want, "\"%s\" of %lld gives \"%s\", not \"%s\"", P(p).c_str(), (long long)F[k].t, P(got).c_str(), P(want).c_str());
         EXPECT(c, d.time() == F[k].t, "formatting changes the date");
         if(k == 0)EXPECT(c, U(DateFormatter::format(J(p), d)) == want, "static format() of \"%s\" differs", P(p).c_str());
      }
   }
   bool open(const std::u16string& p)
   {
      return std::count(p.begin(), p.end(), u'\'') % 2;
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("every symbol at every width", {1, "each symbol repeated 1 to 9, 255 to 259 or 513 times, every month, day of the week and millisecond width; neighbours before and after"}, [](Ctx & c)
   {
      const char16_t S[] = u"yMdDEHmsS";
      char16_t s = S[c.choose(9)];
      static const int kMore[] = {255, 256, 257, 258, 259, 513};
      int n = 1 + c.choose(15);
      if(n > 9)n = kMore[n - 10];
      int with = c.choose(6);
      std::u16string p(n, s);
      if(with == 1)p = u"'" + p + u"'" + p + u"'" + p + u"'";
      if(with == 2)p = u"x" + p + u"x";
      if(with == 3)p = u"y" + p + u"'y'" + u"d";
      if(with == 4)p = p + u"''" + p;
      if(with == 5)p = u"\u20AC" + p + u"%";
      run(c, p);
      // every value of the field
      DateFormatter df(J(p));
      Fields f = {0, 1970, 1, 1, 4, 1, 0, 0, 0, 0};
      static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      for(int day = 0; day < 365; day++)
      {
         f.h = day % 24;
         f.mi = day % 60;
         f.s = (day * 7) % 60;
         f.ms = (day * 11) % 1000;
         f.t = day * 86400000LL + f.h * 3600000LL + f.mi * 60000LL + f.s * 1000 + f.ms;
         c.trans();
         std::u16string want = reference(p, f), got = U(df.format(Date(f.t)));
         EXPECT(c, got == want, "\"%s\" of day %d gives \"%s\", not \"%s\"", P(p).c_str(), day, P(got).c_str(), P(want).c_str());
         f.week = (f.week + 1) % 7;
         f.ofYear++;
         if(++f.date > len[f.month - 1])
         {
            f.date = 1;
            f.month++;
         }
      }
      c.state(P(p));
   });
   scenario("every pattern", {4, "all patterns up to length 5 / 6 over y M d E S m, a letter without meaning, a blank and the quote (closed quotes), on nine dates"}, [](Ctx & c)
   {
      static const char16_t A[] = {'y', '\'', 'M', ' ', 'S', 'E', 'd', 'x', 'm'};
      int n = c.choose(tier(6, 7));
      std::u16string p;
      for(int i = 0; i < n; i++)p += A[c.choose(tier(8, 9))];
      if(open(p))
      {
         c.discard();
         return;
      }
      run(c, p);
      c.state(P(p));
   });
   scenario("pieces", {2, "all sequences of up to 4 pieces of 16: dates, times, separators and texts"}, [](Ctx & c)
   {
      static const char16_t* const A[] = {u"dd", u"MM", u"yyyy", u"yy", u"HH", u"mm", u"ss", u"SSS", u"D", u"EEEE", u"MMMM", u".", u":", u"'on'", u"' '", u"-"};
      int n = 1 + c.choose(tier(4, 5));
      std::u16string p;
      for(int i = 0; i < n; i++)p += A[c.choose(16)];
      run(c, p);
      c.state(P(p));
   });
   scenario("documented symbols that are not supported", {1, "w W F a K h k z"}, [](Ctx & c)
   {
      static const char16_t S[] = u"wWFaKhkz";
      char16_t s = S[c.choose(8)];
      std::string key = std::string("symbol-") + (char)s;
      for(int k = 0; k < kDates; k++)
      {
         c.trans();
         std::string got = P(U(DateFormatter::format(J(std::u16string(1, s)), Date(F[k].t))));
         int h = F[k].h;
         std::string want = s == 'a' ? (h < 12 ? "AM" : "PM") : std::to_string(s == 'K' ? h % 12 : s == 'h' ? (h + 11) % 12 + 1 : h ? h : 24);
         if(got == std::string(1, (char)s))c.failKey(key, "the symbol %c is printed as letter", (char)s);
         if(s == 'a' || s == 'K' || s == 'h' || s == 'k')EXPECT(c, got == want, "\"%c\" of %lld gives %s, not %s", (char)s, (long long)F[k].t, got.c_str(), want.c_str());
      }
      c.state(key);
   });
   scenario("long patterns", {1, "54 lengths up to 257: one symbol that often, texts and quoted texts of that length, that many pieces"}, [](Ctx & c)
   {
      int n = lengths(false)[c.choose((int)lengths(false).size())], kind = c.choose(5);
      std::u16string p;
      const char16_t* S[] = {u"yyyy", u"-", u"MM", u"d", u" ", u"HH", u":", u"mm", u"'o''clock'", u"S", u"EEE"};
      if(kind == 0)p = std::u16string(n, u'-') + u"dd" + std::u16string(n, u'.') + u"MM";
      if(kind == 1)p = u"'" + std::u16string(n, u'x') + u"'yyyy'" + std::u16string(n, u'd') + u"'";
      if(kind == 2)for(int i = 0; i < n; i++)p += S[i % 8];
      if(kind == 3)for(int i = 0; i < n; i++)p += u"yMdDEHmsS"[i % 9];
      if(kind == 4)for(int i = 0; i < n; i++)p += i % 2 ? u"'q'" : u"dd ";
      run(c, p);
      c.state(n * 8 + kind);
   });
}
