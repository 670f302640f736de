// Math: tolerance comparisons, rounding and integer helpers.
// mc: workers 8
// mc: link -Wl,--wrap=rand
#include "lib.hpp"
#include <cmath>
using namespace jm;
const char* const kProperty = "M01";

static int gRand[8], gRands = 0, gRandUsed = 0;
extern "C" int __real_rand();
extern "C" int __wrap_rand()
{
   if(gRands == 0)return __real_rand();
   return gRand[gRandUsed++ % gRands];
}

namespace
{
   typedef __float128 Q;
   double nextBy(double v, int n)
   {
      for(; n > 0; n--)v = std::nextafter(v, INFINITY);
      for(; n < 0; n++)v = std::nextafter(v, -INFINITY);
      return v;
   }
   void compare(mc::Ctx& c, double a, double b)
   {
      c.trans();
      bool eq = jm::isEqual(a, b), ne = jm::isNotEqual(a, b), lt = jm::isLess(a, b), le = jm::isLessEqual(a, b), gt = jm::isGreater(a, b), ge = jm::isGreaterEqual(a, b);
      char t[200];
      snprintf(t, sizeof t, "%.17g and %.17g: == %d, != %d, < %d, <= %d, > %d, >= %d", a, b, eq, ne, lt, le, gt, ge);
      EXPECT(c, eq + lt + gt == 1, "not exactly one of less, equal, greater for %s", t);
      EXPECT(c, ne == !eq && le == (lt || eq) && ge == (gt || eq), "combined relations for %s", t);
      EXPECT(c, jm::isEqual(b, a) == eq && jm::isNotEqual(b, a) == ne && jm::isLess(b, a) == gt && jm::isGreater(b, a) == lt
             && jm::isLessEqual(b, a) == ge && jm::isGreaterEqual(b, a) == le, "swapping the operands does not mirror the result for %s", t);
      // the exact difference decides, unless the difference itself is rounded right at the tolerance
      Q d = (Q)b - (Q)a, r = (Q)RESABS, ulp = (Q)1e-15 * (d < 0 ? -d : d);
      if(d < r - ulp && d > -r + ulp)EXPECT(c, eq, "|difference| is below the tolerance: %s", t);
      if(d > r + ulp)EXPECT(c, lt, "the second exceeds the first by more than the tolerance: %s", t);
      if(d < -r - ulp)EXPECT(c, gt, "the first exceeds the second by more than the tolerance: %s", t);
   }
   const double BASE[] = {0, 1, -1, 0.5, -0.1, 3, 1e-6, -1e-6, 1e-300, 5e-324, 12345.678, -12345.678, 1e9, 17179869184.0, -17179869184.0, 34359738368.0, 1e15, -1e15, 1e17, 1e300, -1e300};
   const double OFF[] = {0, 1e-6, -1e-6, 2e-6, -2e-6, 5e-7, -5e-7, 1e-7, 1e-12, 1e-5, 1, -1, 9.99999e-7, 1.000001e-6};
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("comparisons around the tolerance", {2, "21 magnitudes x 14 offsets x up to 3 steps of the number format to both sides of both operands"}, [](Ctx & c)
   {
      double a = BASE[c.choose(21)];
      double off = OFF[c.choose(14)];
      for(int i = -3; i <= 3; i++)for(int k = -3; k <= 3; k++)
         {
            double x = nextBy(a, i), y = nextBy(a + off, k);
            if(std::isinf(x) || std::isinf(y))continue;
            compare(c, x, y);
         }
      c.state(std::to_string(a) + "/" + std::to_string(off));
   });
   scenario("comparisons of all pairs", {1, "all pairs of the 21 magnitudes and their neighbourhoods; transitivity of less over all triples"}, [](Ctx & c)
   {
      double a = BASE[c.choose(21)];
      for(double b : BASE)for(double o1 : OFF)for(double o2 : OFF)compare(c, a + o1, b + o2);
      for(double b : BASE)for(double d : BASE)
         {
            c.trans();
            if(jm::isLess(a, b) && jm::isLess(b, d))EXPECT(c, jm::isLess(a, d), "%g < %g < %g", a, b, d);
         }
      c.state(std::to_string(a));
   });
   scenario("rounding", {2, "every number around k/2 for |k| up to 4000 and around every power of 2 up to 2^62, with 2 steps to both sides"}, [](Ctx & c)
   {
      auto one = [&](double v)
      {
         c.trans();
         Q q = (Q)(v < 0 ? -v : v);
         int64 whole = (int64)q;
         if(q - whole >= (Q)0.5)whole++;
         int64 want = v < 0 ? -whole : whole;
         EXPECT(c, jm::round(v) == want, "round(%.17g) is %lld, not %lld", v, (long long)jm::round(v), (long long)want);
         EXPECT(c, jm::sign(v) == (v > 0) - (v < 0), "sign(%.17g)", v);
         EXPECT(c, !jm::isNaN(v), "isNaN(%.17g)", v);
      };
      int part = c.choose(8);
      if(part < 7)
      {
         for(int k = -4000 + part; k <= 4000; k += 7)for(int s = -2; s <= 2; s++)one(nextBy(k / 2.0, s));
      }
      else
      {
         for(int e = 1; e <= 62; e++)for(int s = -3; s <= 3; s++)for(double f : {0.0, 0.5, 1.0, 1.5, -0.5, -1.0})
               {
                  double v = nextBy(std::ldexp(1.0, e) + f, s);
                  if(v > 9.2e18)continue;
                  one(v);
                  one(-v);
               }
         EXPECT(c, jm::isNaN(NAN) && jm::isNaN(-NAN) && !jm::isNaN(INFINITY) && !jm::isNaN(-INFINITY) && !jm::isNaN(5e-324), "isNaN");
         EXPECT(c, jm::doubleMaschineEpsilon() == std::ldexp(1.0, -53) && jm::floatMaschineEpsilon() == std::ldexp(1.0f, -24), "machine epsilon");
         EXPECT(c, jm::sign(0.0) == 0 && jm::sign(-0.0) == 0 && jm::sign(INFINITY) == 1 && jm::sign(-INFINITY) == -1 && jm::sign(5e-324) == 1 && jm::sign(-5e-324) == -1, "sign");
      }
      c.state("r" + std::to_string(part));
   });
   scenario("rounding to digits", {2, "0 to 6 digits: every multiple of a quarter of the last digit up to 2000, both signs; large numbers stay"}, [](Ctx & c)
   {
      int digits = c.choose(7);
      int k = c.choose(2001);
      double f = std::pow(10.0, digits);
      for(int sgn = -1; sgn <= 1; sgn += 2)
      {
         c.trans();
         double v = sgn * (k / 4.0) / f;
         double got = jm::roundFrac(v, (int64)digits);
         float gotf = jm::roundFrac((float)v, (int32)digits);
         // halves may fall to either side: the number itself is not exact
         int lo = (k + 1) / 4, hi = (k + 2) / 4;
         double a = sgn * lo / f, b = sgn * hi / f;
         EXPECT(c, std::abs(got - a) <= 1e-12 * (1 + std::abs(a)) || std::abs(got - b) <= 1e-12 * (1 + std::abs(b)), "roundFrac(%.17g, %d) is %.17g, not %.17g", v, digits, got, b);
         EXPECT(c, std::abs(gotf - a) <= 1e-6 * std::abs(a) + 1e-30 || std::abs(gotf - b) <= 1e-6 * std::abs(b) + 1e-30, "roundFrac(%.9gf, %d) is %.9g, not %.9g", v, digits, gotf, b);
         double big = sgn * (1e17 + k * 1024.0);
         EXPECT(c, std::abs(jm::roundFrac(big, (int64)digits) - big) <= 64, "roundFrac(%.17g, %d) is %.17g", big, digits, jm::roundFrac(big, (int64)digits));
         float bigf = (float)big;
         EXPECT(c, std::abs(jm::roundFrac(bigf, (int32)digits) - bigf) <= 1e-6f * std::abs(bigf), "roundFrac(%.9gf, %d) is %.9g", bigf, digits, jm::roundFrac(bigf, (int32)digits));
      }
      c.state(std::to_string(digits) + "/" + std::to_string(k));
   });
   scenario("floor division", {2, "all pairs of -300..300 and of the limits of the integer types"}, [](Ctx & c)
   {
      std::vector<int64> X, Y;
      int x0 = c.choose(602);
      static const int64 L[] = {INT64_MAX, INT64_MIN + 1, INT64_MIN, INT32_MAX, INT32_MIN, (int64)INT32_MAX + 1, (int64)INT32_MIN - 1, 1LL << 62, -(1LL << 62), 86400000, -86400000, 1000003, -1000003};
      if(x0 < 601)X.push_back(x0 - 300);
      else X.assign(L, L + 13);
      for(int i = -300; i <= 300; i++)Y.push_back(i);
      Y.insert(Y.end(), L, L + 13);
      for(int64 x : X)for(int64 y : Y)
         {
            if(y == 0 || (x == INT64_MIN && y == -1))continue;
            c.trans();
            int64 q = jm::divFloor(x, y), r = jm::modFloor(x, y);
            EXPECT(c, (__int128)q * y + r == x, "%lld = %lld * %lld + %lld", (long long)x, (long long)q, (long long)y, (long long)r);
            EXPECT(c, y > 0 ? (r >= 0 && r < y) : (r <= 0 && r > y), "%lld modulo %lld is %lld", (long long)x, (long long)y, (long long)r);
         }
      for(int64 x : X)EXPECT(c, jm::modFloor(x, 0) == 0, "modulo 0");
      c.state(std::to_string(x0));
   });
   scenario("powers of two and swaps", {2, "all 17-bit numbers, and 2^k, 2^k +- 1, 2^k +- 2 for all k; all pairs of 12 limits swapped, also with themselves"}, [](Ctx & c)
   {
      int part = c.choose(8);
      auto one = [&](uint64 v)
      {
         if(v == 0 || v > 0x80000000ULL)return;
         c.trans();
         uint64 up = 1;
         while(up < v)up *= 2;
         EXPECT(c, jm::ceilPowerOf2((uint32)v) == up, "ceilPowerOf2(%llu) is %u", (unsigned long long)v, jm::ceilPowerOf2((uint32)v));
         if(v < 0x80000000ULL)
         {
            EXPECT(c, jm::powerOf2((int32)v) == (up == v), "powerOf2(%llu)", (unsigned long long)v);
            EXPECT(c, !jm::powerOf2(-(int32)v), "powerOf2(-%llu)", (unsigned long long)v);
         }
      };
      for(uint64 v = part; v < 131072; v += 8)one(v);
      for(int k = 0; k < 32; k++)for(int d = -2; d <= 2; d++)one((1ULL << k) + d);
      EXPECT(c, !jm::powerOf2(0) && !jm::powerOf2(INT32_MIN), "powerOf2(0)");
      static const int64 L[] = {0, 1, -1, 2, 127, 128, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN};
      for(int64 x : L)for(int64 y : L)
         {
            c.trans();
#define SWAP(T) { T a = (T)x, b = (T)y; jm::swap(a, b); EXPECT(c, a == (T)y && b == (T)x, "swap(" #T "): %lld and %lld", (long long)x, (long long)y); jm::swap(a, a); EXPECT(c, a == (T)y, "swap(" #T ") of %lld with itself", (long long)y); }
            SWAP(int32) SWAP(uint32) SWAP(uint16) SWAP(uint8) SWAP(double)
         }
      c.state("p" + std::to_string(part));
   });
   scenario("interpolation and angles", {3, "all pairs of -8..8, 9 positions from below 0 to above 1; every quarter degree of four turns"}, [](Ctx & c)
   {
      int a = c.choose(17) - 8, b = c.choose(17) - 8;
      for(int p = -2; p <= 6; p++)
      {
         c.trans();
         double want = a + (b - a) * p / 4.0;
         EXPECT(c, jm::interpolate((double)a, (double)b, p / 4.0) == want && jm::interpolate((float)a, (float)b, (float)p / 4) == (float)want, "interpolate(%d, %d, %g)", a, b, p / 4.0);
         for(int e = 1; e <= 4; e *= 2)
            EXPECT(c, jm::interpolate((double)a, (double)b, 3.0, 3.0 + e, 3.0 + p * e / 4.0) == want, "interpolate(%d, %d, 3, %d, %g)", a, b, 3 + e, 3.0 + p * e / 4.0);
      }
      int part = (a + 8) * 17 + b + 8;
      for(int k = -2880 + part; k <= 2880; k += 289)
      {
         double deg = k / 4.0, rad = (double)((Q)deg * (Q)M_PI / 180);
         c.trans();
         EXPECT(c, std::abs(jm::degToRad(deg) - rad) <= 1e-14 * (1 + std::abs(rad)), "degToRad(%g) is %.17g", deg, jm::degToRad(deg));
         EXPECT(c, std::abs(jm::radToDeg(rad) - deg) <= 1e-14 * (1 + 180 * std::abs(deg)), "radToDeg(%.17g) is %.17g", rad, jm::radToDeg(rad));
      }
      c.state(std::to_string(part));
   });
   scenario("random numbers", {3, "the generator replaced: every value of 0..399 and the largest ones for all ranges within -6..6; probabilities 0, 1 and steps of a thousandth"}, [](Ctx & c)
   {
      int lo = c.choose(13) - 6, hi = lo + c.choose(13);
      std::set<int> seen;
      for(int v = 0; v < 400; v++)for(int64 base : {(int64)0, (int64)RAND_MAX - 399})
         {
            gRand[0] = (int)(base + v);
            gRands = 1;
            c.trans();
            int r = jm::random(lo, hi);
            gRands = 0;
            EXPECT(c, r >= lo && r <= hi, "random(%d, %d) is %d", lo, hi, r);
            seen.insert(r);
         }
      EXPECT(c, (int)seen.size() == hi - lo + 1, "random(%d, %d) reaches only %zu values", lo, hi, seen.size());
      int idx = (lo + 6) * 13 + hi - lo;
      if(idx < 101)
      {
         int hits = 0;
         double p = idx / 100.0;
         for(int v = 0; v < 10000; v++)
         {
            gRand[0] = v;
            gRands = 1;
            hits += jm::probability(p);
            gRands = 0;
         }
         c.trans(10000);
         EXPECT(c, hits >= idx * 100 - 2 && hits <= idx * 100 + 2 && (idx || !hits) && (idx < 100 || hits == 10000), "probability(%g) is fulfilled by %d of 10000 draws", p, hits);
      }
      static const int R[] = {0, 1, 32767, 32768, 65535, 65536, RAND_MAX};
      for(int i = 0; i < 7; i++)for(int k = 0; k < 7; k++)for(int l = 0; l < 7; l++)
            {
               gRand[0] = R[i];
               gRand[1] = R[k];
               gRand[2] = R[l];
               gRands = 3;
               gRandUsed = 0;
               double r = jm::random();
               gRands = 0;
               EXPECT(c, r >= 0 && r < 1, "random() is %.17g", r);
            }
      c.state(std::to_string(idx));
   });
}
