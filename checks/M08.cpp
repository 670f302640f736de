// NURBS curves against de Boor's algorithm in homogeneous coordinates.
// mc: workers 8
#include "lib.hpp"
#include <cmath>
using namespace jm;
const char* const kProperty = "M08";

namespace
{
   typedef long double D;
   struct H
   {
      D x = 0, y = 0, z = 0, w = 0;
   };
   struct Curve
   {
      int p = 1;
      std::vector<std::array<double, 3>> c;
      std::vector<double> k, w;
      std::string txt() const
      {
         std::string s = mc::fmt("degree %d, knots", p);
         for(double v : k)s += mc::fmt(" %g", v);
         s += ", weights";
         for(double v : w)s += mc::fmt(" %g", v);
         s += ", points";
         for(auto& v : c)s += mc::fmt(" (%g,%g,%g)", v[0], v[1], v[2]);
         return s;
      }
      double start() const
      {
         return k[(size_t)p];
      }
      double end() const
      {
         return k[c.size()];
      }
      H point(D t) const
      {
         int n = (int)c.size(), s = p;
         while(s + 1 < n && k[(size_t)s + 1] <= t)s++; // k[s] <= t < k[s+1] (the last interval is closed)
         while(s > p && k[(size_t)s] == k[(size_t)s + 1])s--;
         std::vector<H> d;
         for(int j = 0; j <= p; j++)
         {
            auto& q = c[(size_t)(s - p + j)];
            D g = w[(size_t)(s - p + j)];
            d.push_back({q[0]*g, q[1]*g, q[2]*g, g});
         }
         for(int r = 1; r <= p; r++)for(int j = p; j >= r; j--)
            {
               D lo = k[(size_t)(s - p + j)], hi = k[(size_t)(s + 1 + j - r)], a = (t - lo) / (hi - lo);
               H &u = d[(size_t)j], &v = d[(size_t)j - 1];
               u = {(1 - a)*v.x + a * u.x, (1 - a)*v.y + a * u.y, (1 - a)*v.z + a * u.z, (1 - a)*v.w + a * u.w};
            }
         H& r = d[(size_t)p];
         return {r.x / r.w, r.y / r.w, r.z / r.w, 1};
      }
   };
   bool near(const H& h, const Vertex3& v)
   {
      D s = 1e-9L * (1 + fabsl(h.x) + fabsl(h.y) + fabsl(h.z));
      return fabsl(h.x - v.x) <= s && fabsl(h.y - v.y) <= s && fabsl(h.z - v.z) <= s;
   }
   void compare(mc::Ctx& c, const Curve& q, int parts)
   {
      c.state(q.txt());
      std::vector<Vertex3> pts;
      for(auto& v : q.c)pts.push_back(Vertex3(v[0], v[1], v[2]));
      std::vector<double> k = q.k, w = q.w;
      Nurbs n((uint32)q.p, pts.data(), (uint32)pts.size(), k.data(), (uint32)k.size(), w.data(), (uint32)w.size());
      // the curve keeps its own copy
      for(auto& v : pts)v = Vertex3(99, 99, 99);
      for(auto& v : k)v = -1;
      for(auto& v : w)v = 7;
      EXPECT(c, n.controlPointCount() == q.c.size() && n.knotCount() == q.k.size(), "%s: %u points, %u knots", q.txt().c_str(), n.controlPointCount(), n.knotCount());
      for(size_t i = 0; i < q.k.size(); i++)EXPECT(c, n.knot((uint32)i) == q.k[i], "%s: knot %zu is %g", q.txt().c_str(), i, n.knot((uint32)i));
      EXPECT(c, n.start() == 0, "%s: starts at %g", q.txt().c_str(), n.start());
      EXPECT(c, n.end() == q.end(), "%s: ends at %g instead of %g", q.txt().c_str(), n.end(), q.end());
      double a = q.start(), b = q.end();
      for(int i = 0; i <= parts; i++)
      {
         double t = i == parts ? b : a + (b - a) * i / parts;
         c.trans();
         Vertex3 got = n.point(t);
         H want = q.point(t);
         EXPECT(c, near(want, got), "%s: the point at %g is (%.12g,%.12g,%.12g) instead of (%.12Lg,%.12Lg,%.12Lg)", q.txt().c_str(), t, got.x, got.y, got.z, want.x, want.y, want.z);
      }
      for(double t : q.k)if(t >= a && t <= b)
         {
            Vertex3 got = n.point(t);
            H want = q.point(t);
            EXPECT(c, near(want, got), "%s: the point at the knot %g is (%.12g,%.12g,%.12g) instead of (%.12Lg,%.12Lg,%.12Lg)", q.txt().c_str(), t, got.x, got.y, got.z, want.x, want.y, want.z);
         }
      bool clamped = true;
      for(int i = 0; i <= q.p; i++)clamped = clamped && q.k[(size_t)i] == q.k[0] && q.k[q.k.size() - 1 - (size_t)i] == q.k.back();
      if(clamped)
      {
         auto &f = q.c.front(), &l = q.c.back();
         EXPECT(c, near({f[0], f[1], f[2], 1}, n.point(a)) && near({l[0], l[1], l[2], 1}, n.point(b)), "%s: does not begin and end in its outer control points", q.txt().c_str());
      }
   }
   const double X[][3] = {{0, 0, 0}, {1, 2, 0}, {3, -1, 0.5}, {4, 4, -2}, {-5, 1, 1}, {2, 2, 2}, {7, -3, 0.25}};
}
void defineScenarios()
{
   useLibrary();
   mc::scenario("clamped", {3, "all degrees 1 to 4 with up to 6 (thorough 7) control points, all inner knot steps over {0,1,2.5}, all weights over {1,2} (thorough and 0.5), all parameters at 24ths and knots"}, [](mc::Ctx & c)
   {
      int most = mc::tier(6, 7);
      Curve q;
      q.p = 1 + c.choose(4);
      int n = q.p + 1 + c.choose(most - q.p);
      static const double S[] = {1, 0, 2.5};
      double t = 0;
      for(int i = 0; i <= q.p; i++)q.k.push_back(0);
      int inner = n - q.p - 1, same = 0;
      bool ok = true;
      for(int i = 0; i < inner; i++)
      {
         int s = c.choose(3);
         same = s == 1 ? same + 1 : 0;
         if(i == 0 && s == 1)ok = false;
         if(same >= q.p)ok = false; // not continuous
         t += S[s];
         q.k.push_back(t);
      }
      t += 1;
      for(int i = 0; i <= q.p; i++)q.k.push_back(t);
      for(int i = 0; i < n; i++)q.w.push_back(c.choose(mc::tier(2, 3)));
      for(double& w : q.w)w = w == 0 ? 1 : w == 1 ? 2 : 0.5;
      for(int i = 0; i < n; i++)q.c.push_back({X[i][0], X[i][1], X[i][2]});
      if(!ok)return;
      compare(c, q, 24);
   });
   mc::scenario("open knots", {3, "all degrees 1 to 3 with up to 5 (thorough 6) control points, all knot steps over {1,0.5} starting at 0, all weights over {1,3}"}, [](mc::Ctx & c)
   {
      int most = mc::tier(5, 6);
      Curve q;
      q.p = 1 + c.choose(3);
      int n = q.p + 1 + c.choose(most - q.p);
      double t = 0;
      for(int i = 0; i < n + q.p + 1; i++)
      {
         q.k.push_back(t);
         t += c.choose(2) ? 0.5 : 1;
      }
      for(int i = 0; i < n; i++)q.w.push_back(c.choose(2) ? 3 : 1);
      for(int i = 0; i < n; i++)q.c.push_back({X[i][0], X[i][1], X[i][2]});
      compare(c, q, 12);
   });
   mc::scenario("control points", {2, "all quadratic curves with 3 control points over a 3x3x2 grid, the quarter circle among them"}, [](mc::Ctx & c)
   {
      Curve q;
      q.p = 2;
      q.k = {0, 0, 0, 1, 1, 1};
      for(int i = 0; i < 3; i++)
      {
         double x = c.choose(3) - 1, y = c.choose(3) - 1, z = c.choose(2);
         q.c.push_back({x, y, z});
      }
      q.w = {1, std::sqrt(0.5), 1};
      compare(c, q, 16);
      // a quarter circle keeps its distance
      Vertex3 p[] = {Vertex3(1, 0, 0), Vertex3(1, 1, 0), Vertex3(0, 1, 0)};
      double k[] = {0, 0, 0, 1, 1, 1}, w[] = {1, std::sqrt(0.5), 1};
      Nurbs n(2, p, 3, k, 6, w, 3);
      for(int i = 0; i <= 16; i++)EXPECT(c, std::abs(n.point(i / 16.0).abs() - 1) < 1e-9, "the quarter circle at %d/16", i);
   });
   mc::scenario("creation", {1, "degree 0 is refused, the empty curve, memory"}, [](mc::Ctx & c)
   {
      int what = c.choose(2);
      Vertex3 p[] = {Vertex3(1, 0, 0), Vertex3(1, 1, 0)};
      double k[] = {0, 0, 1, 1}, w[] = {1, 1};
      if(what == 0)
      {
         EXPECT(c, threw([&] { Nurbs n(0, p, 2, k, 4, w, 2); }), "a curve of degree 0 is accepted");
         Nurbs e;
         EXPECT(c, e.start() == 0 && e.end() == 0 && e.controlPointCount() == 0 && e.knotCount() == 0, "the empty curve: %g to %g", e.start(), e.end());
         Vertex3 v = e.point(0);
         EXPECT(c, v.x == 0 && v.y == 0 && v.z == 0, "the point of the empty curve");
      }
      else leakFree(c, [&]
      {
         Nurbs n(1, p, 2, k, 4, w, 2);
         Vertex3 v = n.point(0.5);
         EXPECT(c, v.x == 1 && v.y == 0.5 && v.z == 0, "the middle of a line");
         Nurbs e;
      });
   });
   mc::scenario("higher degrees and more points", {1, "degrees 1 to 7 (thorough 9), up to 21 (40) control points, 6 patterns of inner knots (even, uneven, double, nearly together, far apart), two patterns of weights, clamped or open, three sizes of the parameter range"}, [](mc::Ctx & c)
   {
      static const int EXTRA[] = {0, 1, 2, 3, 5, 8, 13, 21, 30};
      Curve q;
      q.p = 1 + c.choose(mc::tier(7, 9));
      int n = q.p + 1 + EXTRA[c.choose(mc::tier(7, 9))], pat = c.choose(6), weights = c.choose(2), clamped = c.choose(2), unit = c.choose(3);
      auto stepAt = [&](int i)
      {
         switch(pat)
         {
            case 0: return 1.0;
            case 1: return 0.5 + i % 3;
            case 2: return i % 2 ? 1.0 : q.p > 2 && clamped && i ? 0.0 : 2.0;
            case 3: return i % 3 ? 1.0 : 0.015625;
            case 4: return i % 3 ? 1.0 : 64.0;
            default: return 0.125 * (1 + i * 5 % 7);
         }
      };
      double t = 0;
      for(int i = 0; i < n + q.p + 1; i++)
      {
         bool outer = clamped && (i <= q.p || i > n);
         if(i && (!outer || i == n || (i == q.p + 1 && i <= n)))t += std::max(stepAt(i), i == n || i == q.p + 1 ? 0.5 : 0.0);
         q.k.push_back(t);
      }
      for(int i = 0; i < n; i++)
      {
         q.w.push_back(weights ? 1 + i * 3 % 4 : 1);
         q.c.push_back({X[i % 7][0] + i, X[i % 7][1] - i * 0.5, X[i % 7][2] * (1 + i % 3)});
      }
      // (powers of two, so that nothing else changes)
      for(double& x : q.k)x *= unit == 0 ? 1 : unit == 1 ? 1 / 1024.0 : 4096;
      compare(c, q, mc::tier(24, 48));
   });
}
