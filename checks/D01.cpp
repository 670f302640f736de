// Date against an independent calendar: the days are counted one by one.
// mc: workers 8
// mc: nosan
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "D01";

namespace
{
   const int64 MS = 86400000LL;
   bool leap(int64 y)
   {
      return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0);
   }
   int monthLen(int64 y, int m)
   {
      static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      return len[m] + (m == 1 && leap(y));
   }
   // a day, stepped forwards or backwards one at a time
   struct Day
   {
      int64 year = 1970;
      int month = 0, date = 1, week = 4, ofYear = 0;
      int64 n = 0;
      void next()
      {
         n++;
         week = week == 6 ? 0 : week + 1;
         date++;
         ofYear++;
         if(date > monthLen(year, month))
         {
            date = 1;
            month++;
         }
         if(month == 12)
         {
            month = 0;
            year++;
            ofYear = 0;
         }
      }
      void prev()
      {
         n--;
         week = week == 0 ? 6 : week - 1;
         date--;
         ofYear--;
         if(date == 0)
         {
            month--;
            if(month < 0)
            {
               month = 11;
               year--;
               ofYear = leap(year) ? 365 : 364;
            }
            date = monthLen(year, month);
         }
      }
   };
   Day firstOf(int64 year)
   {
      static std::map<int64, Day> known;
      auto it = known.find(year);
      if(it != known.end())return it->second;
      Day d;
      while(d.year > year || (d.year == year && d.ofYear > 0))d.prev();
      while(d.year < year)d.next();
      return known[year] = d;
   }
   // lite: only what depends on the time of day
   void check(mc::Ctx& c, const Day& d, int64 ms, bool lite = false)
   {
      c.trans();
      int64 t = d.n * MS + ms;
      Date x(t);
      int64 h = ms / 3600000, mi = ms / 60000 % 60, s = ms / 1000 % 60, l = ms % 1000;
      EXPECT(c, x.time() == t && x.hours() == h && x.minutes() == mi && x.seconds() == s && x.milliseconds() == l, "%lld: is %lld:%lld:%lld.%lld, not %lld:%lld:%lld.%lld",
             (long long)t, (long long)x.hours(), (long long)x.minutes(), (long long)x.seconds(), (long long)x.milliseconds(), (long long)h, (long long)mi, (long long)s, (long long)l);
      EXPECT(c, x.utcHours() == h && x.utcMinutes() == mi && x.utcSeconds() == s && x.utcMilliseconds() == l, "%lld: UTC time fields differ", (long long)t);
      if(lite)
      {
         Date y((uint16)d.year, (uint16)d.month, (uint16)d.date, (uint16)h, (uint16)mi, (uint16)s, (uint16)l);
         EXPECT(c, y.time() == t, "%lld-%d-%d %lld:%lld:%lld.%lld is %lld, not %lld", (long long)d.year, d.month, d.date,
                (long long)h, (long long)mi, (long long)s, (long long)l, (long long)y.time(), (long long)t);
         return;
      }
      if(ms == MS - 1 && d.date != monthLen(d.year, d.month))
      {
         EXPECT(c, x.date() == d.date && x.dayOfYear() == d.ofYear && x.day() == d.week, "%lld: is the %lld., day %lld, weekday %lld, not the %d., day %d, weekday %d", (long long)t,
                (long long)x.date(), (long long)x.dayOfYear(), (long long)x.day(), d.date, d.ofYear, d.week);
         return;
      }
      bool ok = x.time() == t && x.year() == d.year && x.month() == d.month && x.date() == d.date && x.day() == d.week
                && x.dayOfYear() == d.ofYear && x.hours() == h && x.minutes() == mi && x.seconds() == s && x.milliseconds() == l;
      EXPECT(c, ok, "%lld: is %lld-%lld-%lld weekday %lld day %lld %lld:%lld:%lld.%lld, not %lld-%d-%d weekday %d day %d %lld:%lld:%lld.%lld",
             (long long)t, (long long)x.year(), (long long)x.month(), (long long)x.date(), (long long)x.day(), (long long)x.dayOfYear(),
             (long long)x.hours(), (long long)x.minutes(), (long long)x.seconds(), (long long)x.milliseconds(),
             (long long)d.year, d.month, d.date, d.week, d.ofYear, (long long)h, (long long)mi, (long long)s, (long long)l);
      ok = (d.date > 3 && d.date < 27) || (x.utcYear() == d.year && x.utcMonth() == d.month && x.utcDate() == d.date && x.utcDay() == d.week);
      EXPECT(c, ok, "%lld: UTC fields differ", (long long)t);
      if(d.year >= 0 && d.year <= 65535)
      {
         Date y((uint16)d.year, (uint16)d.month, (uint16)d.date, (uint16)h, (uint16)mi, (uint16)s, (uint16)l);
         EXPECT(c, y.time() == t, "%lld-%d-%d %lld:%lld:%lld.%lld is %lld, not %lld", (long long)d.year, d.month, d.date,
                (long long)h, (long long)mi, (long long)s, (long long)l, (long long)y.time(), (long long)t);
         if(ms == 0)
         {
            Date z((uint16)d.year, (uint16)d.month, (uint16)d.date);
            EXPECT(c, z.time() == t, "%lld-%d-%d is %lld, not %lld", (long long)d.year, d.month, d.date, (long long)z.time(), (long long)t);
         }
      }
      if(d.year >= 0 && d.year <= 9999 && (d.date < 3 || d.date > 27))
      {
         char b[40];
         snprintf(b, sizeof b, "%04lld-%02d-%02dT%02lld:%02lld:%02lld.%03lldZ", (long long)d.year, d.month + 1, d.date, (long long)h, (long long)mi, (long long)s, (long long)l);
         std::string got = P(U(x.toString()));
         EXPECT(c, got == b, "%lld: toString() is %s, not %s", (long long)t, got.c_str(), b);
      }
      EXPECT(c, x.time() == t, "asking changes the date");
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("every day", {4, "every day of the years 1600 to 2372 / -400 to 2800, at its first and last millisecond"}, [](Ctx & c)
   {
      int from = tier(1600, -400), to = tier(2372, 2800);
      int year = from + c.choose(to - from + 1);
      Day d = firstOf(year);
      for(; d.year == year; d.next())
      {
         check(c, d, 0);
         check(c, d, MS - 1);
      }
      c.state("y" + std::to_string(year));
   });
   scenario("first and last day of every month", {4, "of every year from -1 to 2400 / -1500 to 6000"}, [](Ctx & c)
   {
      int from = tier(-1, -1500), to = tier(2400, 6000);
      int year = from + c.choose(to - from + 1);
      for(Day d = firstOf(year); d.year == year; d.next())
      {
         if(d.date != 1 && d.date != monthLen(year, d.month))continue;
         check(c, d, d.date == 1 ? 0 : MS - 1);
      }
      c.state("e" + std::to_string(year));
   });
   scenario("every second", {4, "every second of the days around the turn of years, centuries and leap days before and after 1970"}, [](Ctx & c)
   {
      static const int days[][3] = {{1970, 0, 1}, {1969, 11, 31}, {2000, 1, 29}, {1900, 1, 28}, {1972, 1, 29}, {1600, 11, 31}, {2100, 2, 1}, {1, 0, 1}, {0, 11, 31}, {9999, 11, 31}};
      auto& w = days[c.choose(tier(6, 10))];
      int hour = c.choose(24);
      Day d = firstOf(w[0]);
      while(d.month != w[1] || d.date != w[2])d.next();
      for(int s = 0; s < 3600; s++)check(c, d, hour * 3600000LL + s * 1000 + (s * 37) % 1000, s % 60 != 0);
      c.state("h" + std::to_string(w[0]) + "/" + std::to_string(hour));
   });
   scenario("every millisecond", {1, "every millisecond of three minutes on both sides of 1970"}, [](Ctx & c)
   {
      int k = c.choose(3);
      Day d;
      if(k == 1)d.prev();
      if(k == 2)d = firstOf(1600);
      int64 base = k == 1 ? MS - 60000 : 0;
      for(int ms = 0; ms < 60000; ms++)check(c, d, base + ms, ms % 1000 != 0);
      c.state("m" + std::to_string(k));
   });
   scenario("fields beyond their range", {2, "months 0..40, days 0..800, hours 0..50, minutes and seconds 0..130, milliseconds 0..2100: the surplus carries over"}, [](Ctx & c)
   {
      static const int years[] = {1968, 1969, 1970, 1999, 2000, 1899};
      int year = years[c.choose(6)];
      int month = c.choose(41);
      Day d = firstOf(year + month / 12);
      while(d.month != month % 12)d.next();
      for(int date = 0; date <= 800; date += (date > 70 ? 73 : 1))
      {
         c.trans();
         int h = date * 7 % 51, mi = date * 11 % 131, s = date * 13 % 131, l = date * 97 % 2101;
         int64 want = (d.n + date - 1) * MS + h * 3600000LL + mi * 60000LL + s * 1000LL + l;
         Date x((uint16)year, (uint16)month, (uint16)date, (uint16)h, (uint16)mi, (uint16)s, (uint16)l);
         EXPECT(c, x.time() == want, "%d-%d-%d %d:%d:%d.%d is %lld, not %lld", year, month, date, h, mi, s, l, (long long)x.time(), (long long)want);
      }
      c.state("c" + std::to_string(year) + "/" + std::to_string(month));
   });
   scenario("order, copies, changes and the NSDate epoch", {1, "all pairs of 22 instants (also the empty date and the outermost ones), all their comparisons; whole and half seconds relative to 2001"}, [](Ctx & c)
   {
      static const int64 T[] = {0, 1, -1, 2, -2, MS, -MS, MS - 1, 1000000000000LL, -1000000000000LL, 253402300799999LL, -62135596800000LL,
                                4294967295LL, 4294967296LL, -2147483648LL, 2147483648LL, INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 1LL << 62, -(1LL << 62)};
      int64 a = T[c.choose(22)], b = T[c.choose(22)];
      c.trans();
      Date x(a), y(b);
      EXPECT(c, x.compareTo(y) == (a > b) - (a < b), "compareTo of %lld and %lld is %d", (long long)a, (long long)b, x.compareTo(y));
      EXPECT(c, (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b),
             "comparisons of %lld and %lld", (long long)a, (long long)b);
      EXPECT(c, x.isEmpty() == (a == INT64_MIN) && Date(Date::EMPTY).isEmpty(), "only the empty date is empty");
      Date z(x);
      z.setTime(b);
      EXPECT(c, x.time() == a && z.time() == b && y.time() == b, "setTime() changes a copy");
      z = x;
      x.setTime(b);
      EXPECT(c, z.time() == a, "assignment");
      EXPECT(c, Date(1).time() == 1, "unrelated");
      for(int k = 0; k < 64; k++)
      {
         int64 half = a / 500 + k;
         if(half > (1LL << 40) || half < -(1LL << 40))break;
         Date n = Date::fromNSDate((double)half / 2);
         EXPECT(c, n.time() == Date(2001, 0, 1).time() + half * 500, "fromNSDate(%g) is %lld", (double)half / 2, (long long)n.time());
      }
      c.state(std::to_string(a) + "/" + std::to_string(b));
   });
   scenario("far years", {2, "the first and last days of the months of the 6 years around and 100, 200, 300 and 400 years behind -30000, -10000, -4713, 8000, 9998, 12345, 32766, 65533, 100000"}, [](Ctx & c)
   {
      static const int64 Y[] = {-30000, -10000, -4713, 8000, 9998, 12345, 32766, 65533, 100000};
      int64 year = Y[c.choose(9)] - 2 + c.choose(6);
      year += 100 * c.choose(5);
      int64 cycles = (year >= 1600 ? (year - 1600) / 400 : -((1600 - year + 399) / 400));
      Day d = firstOf(year - 400 * cycles);
      d.year = year; // the calendar repeats every 400 years, which are 20871 weeks
      d.n += 146097 * cycles;
      for(; d.year == year; d.next())
      {
         if(d.date != 1 && d.date != monthLen(year, d.month) && !(d.month == 1 && d.date == 28))continue;
         check(c, d, 0);
         check(c, d, MS - 1);
      }
      c.state(year);
   });
}
