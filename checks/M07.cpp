// Transformation matrices and coordinate systems against their geometric meaning.
// mc: workers 8
#include "lib.hpp"
#include <cmath>
using namespace jm;
const char* const kProperty = "M07";

namespace
{
   typedef long double D;
   struct V
   {
      D x = 0, y = 0, z = 0;
      V operator+(const V& o) const
      {
         return {x + o.x, y + o.y, z + o.z};
      }
      V operator-(const V& o) const
      {
         return {x - o.x, y - o.y, z - o.z};
      }
      V operator*(D f) const
      {
         return {x * f, y * f, z * f};
      }
   };
   D dot(const V& a, const V& b)
   {
      return a.x * b.x + a.y * b.y + a.z * b.z;
   }
   V cross(const V& a, const V& b)
   {
      return {a.y* b.z - a.z * b.y, a.z* b.x - a.x * b.z, a.x* b.y - a.y * b.x};
   }
   D len(const V& a)
   {
      return sqrtl(dot(a, a));
   }
   V unit(const V& a)
   {
      return a * (1 / len(a));
   }
   Vertex3 real(const V& a)
   {
      return Vertex3((double)a.x, (double)a.y, (double)a.z);
   }
   V of(const Vertex3& a)
   {
      return {a.x, a.y, a.z};
   }
   std::string txt(const V& a)
   {
      return mc::fmt("(%.10Lg,%.10Lg,%.10Lg)", a.x, a.y, a.z);
   }
   bool near(const V& a, const Vertex3& b, D tol = 1e-9L)
   {
      D s = 1 + fabsl(a.x) + fabsl(a.y) + fabsl(a.z);
      V d = a - of(b);
      return fabsl(d.x) <= tol * s && fabsl(d.y) <= tol * s && fabsl(d.z) <= tol * s;
   }
   // rotation about an axis (a unit vector) through the origin
   V turn(const V& p, const V& k, D a)
   {
      V par = k * dot(k, p), per = p - par;
      return par + per * cosl(a) + cross(k, p) * sinl(a);
   }
   const D PI = 3.14159265358979323846264338327950288L;

   // ---- arbitrary axis
   struct Axes
   {
      V x, y, z;
   };
   Axes axes(const V& extrusion)
   {
      Axes r;
      r.z = unit(extrusion);
      bool polar = fabsl(r.z.x) < 1 / 64.0L && fabsl(r.z.y) < 1 / 64.0L;
      r.x = unit(cross(polar ? V{0, 1, 0} : V{0, 0, 1}, r.z));
      r.y = unit(cross(r.z, r.x));
      return r;
   }
   void ocs(mc::Ctx& c, const V& e, const V& p)
   {
      c.trans();
      Axes a = axes(e);
      V o{dot(p, a.x), dot(p, a.y), dot(p, a.z)};
      std::string t = "extrusion " + txt(e) + ", point " + txt(p);
      Vertex3 E = real(e), Q = real(p);
      Vertex3 toOcs = wcsToOcs(Q, E);
      EXPECT(c, near(o, toOcs), "%s: OCS point is %s instead of %s", t.c_str(), txt(of(toOcs)).c_str(), txt(o).c_str());
      Vertex3 back = ocsToWcs(toOcs, E);
      EXPECT(c, near(p, back), "%s: back from OCS it is %s", t.c_str(), txt(of(back)).c_str());
      V w = a.x * p.x + a.y * p.y + a.z * p.z;
      Vertex3 toWcs = ocsToWcs(Q, E);
      EXPECT(c, near(w, toWcs), "%s: WCS point is %s instead of %s", t.c_str(), txt(of(toWcs)).c_str(), txt(w).c_str());
      back = wcsToOcs(toWcs, E);
      EXPECT(c, near(p, back), "%s: back from WCS it is %s", t.c_str(), txt(of(back)).c_str());
      EXPECT(c, near(o, ocsMatrix(E) * Q) && near(w, wcsMatrix(E) * Q), "%s: matrices", t.c_str());
      Matrix m;
      m.initWcs(E);
      EXPECT(c, near(w, m.trans(Q)), "%s: initWcs gives %s instead of %s", t.c_str(), txt(of(m.trans(Q))).c_str(), txt(w).c_str());
      EXPECT(c, near(e, E, 1e-15L) && near(p, Q, 1e-15L), "%s: an argument changes", t.c_str());
   }
   const V POINTS[] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-3, 2, 5}, {1000, -2000, 0.5L}, {0.25L, -0.125L, -7}};

   // ---- 4x4 matrices
   struct Op
   {
      std::string name;
      std::function<void(Matrix&)> init;
      std::function<V(const V&)> apply;
      bool planar; // keeps the xy plane and is a similarity in it
   };
   const std::vector<Op>& ops()
   {
      static std::vector<Op> r;
      if(r.size())return r;
      r.push_back({"identity", [](Matrix & m) {m.initIdentity();}, [](const V & p) {return p;}, true});
      for(V d : {V{1, 2, 3}, V{-1000, 0.5L, 0}, V{0, 0, -4}})
         r.push_back({"moving " + txt(d), [d](Matrix & m) {m.initMoving(real(d));}, [d](const V & p) {return p + d;}, true});
      for(V f : {V{2, 3, 5}, V{-1, 1, 0.5L}, V{0, 2, 1}, V{3, 3, -2}})
         r.push_back({"scaling " + txt(f), [f](Matrix & m) {m.initScaling(real(f));}, [f](const V & p) {return V{p.x * f.x, p.y * f.y, p.z * f.z};}, f.x == f.y});
      for(V b : {V{0, 0, 0}, V{1, -2, 3}, V{100, 7, -0.5L}})for(D f : {2.0L, -0.5L, 1.0L})
            r.push_back({"scaling about " + txt(b) + mc::fmt(" by %Lg", f), [b, f](Matrix & m) {m.initScaling(real(b), (double)f);}, [b, f](const V & p) {return b + (p - b) * f;}, true});
      for(D a : {0.0L, PI / 6, PI / 2, PI, -PI / 4, 5.0L, 3 * PI / 2})
         r.push_back({mc::fmt("rotation about z by %.6Lg", a), [a](Matrix & m) {m.initRotationZ((double)a);}, [a](const V & p) {return turn(p, {0, 0, 1}, (D)(double)a);}, true});
      for(V b : {V{0, 0, 0}, V{2, -1, 3}})for(V k : {V{1, 0, 0}, V{0, -1, 0}, V{0, 0, 1}, V{2 / 7.0L, -3 / 7.0L, 6 / 7.0L}})for(D a : {PI / 2, -2.0L, PI})
               r.push_back({"rotation about " + txt(b) + txt(k) + mc::fmt(" by %.6Lg", a), [b, k, a](Matrix & m) {m.initRotation(real(b), real(k), (double)a);}, [b, k, a](const V & p) {return b + turn(p - b, k, (D)(double)a);}, k.x == 0 && k.y == 0});
      for(V b : {V{0, 0, 0}, V{2, -1, 3}, V{-50, 20, 1}})for(V n : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, -1}, V{1, 2, -2}, V{3, -4, 0}, V{0.125L, 0.5L, 0.25L}})
            r.push_back({"mirroring at " + txt(b) + txt(n), [b, n](Matrix & m) {m.initMirroring(real(b), real(n));}, [b, n](const V & p) {V k = unit(n); return p - k * (2 * dot(p - b, k));}, n.z == 0});
      for(V e : {V{0, 0, 1}, V{0, 0, -1}, V{1, 0, 0}, V{2 / 3.0L, -1 / 3.0L, 2 / 3.0L}})
         r.push_back({"WCS of " + txt(e), [e](Matrix & m) {m.initWcs(real(e));}, [e](const V & p) {Axes a = axes(e); return a.x * p.x + a.y * p.y + a.z * p.z;}, e.z == 1 || e.z == -1});
      return r;
   }
   void chain(mc::Ctx& c, int depth)
   {
      Matrix all;
      all.initIdentity();
      std::vector<const Op*> used;
      std::string name;
      bool planar = true;
      for(int i = 0; i < depth; i++)
      {
         const Op& o = ops()[(size_t)c.choose((int)ops().size())];
         Matrix m;
         static const int SHAPE[][2] = {{0, 0}, {4, 4}, {3, 5}, {4, 2}, {4, 6}, {5, 4}, {1, 4}};
         int start = i ? 1 : c.choose(8); // whatever the matrix held before
         if(start == 7)m.initRotation(Vertex3(5, 6, 7), Vertex3(0, 0.6, 0.8), 1.0);
         else if(start)
         {
            m = Matrix(SHAPE[start][0], SHAPE[start][1]);
            for(int r = 0; r < m.m; r++)for(int k = 0; k < m.n; k++)m.set(r, k, 9);
         }
         o.init(m);
         EXPECT(c, m.m == 4 && m.n == 4, "%s: the matrix is %lldx%lld", o.name.c_str(), (long long)m.m, (long long)m.n);
         all = m * all;
         used.push_back(&o);
         name += (i ? ", then " : "") + o.name;
         planar = planar && o.planar;
      }
      c.step("%s", name.c_str());
      c.state(name);
      auto image = [&](V p)
      {
         for(auto* o : used)p = o->apply(p);
         return p;
      };
      for(const V& p : POINTS)
      {
         c.trans();
         Vertex3 got = all.trans(real(p));
         V want = image(p);
         EXPECT(c, near(want, got, 1e-8L), "%s: the image of %s is %s instead of %s", name.c_str(), txt(p).c_str(), txt(of(got)).c_str(), txt(want).c_str());
      }
      EXPECT(c, all.get(3, 0) == 0 && all.get(3, 1) == 0 && all.get(3, 2) == 0 && all.get(3, 3) == 1, "%s: the last row", name.c_str());
      for(D v : {0.0L, 1.0L, -2.5L, 1000.0L})
      {
         D want = len(image({v, 0, 0}) - image({0, 0, 0}));
         double got = all.trans((double)v);
         EXPECT(c, fabsl(got - want) <= 1e-8L * (1 + fabsl(want) + 2000), "%s: the length %Lg becomes %g instead of %Lg", name.c_str(), v, got, want);
      }
      if(!planar)return;
      for(int i = -2; i <= 8; i++)
      {
         double a = i * M_PI / 4 + (i % 3) * 0.1;
         V d = image({cosl((D)a), sinl((D)a), 0}) - image({0, 0, 0});
         double got = all.transAngle(a);
         if(len(d) < 1e-5L)continue;
         d = unit(d);
         EXPECT(c, got >= 0 && got <= 2 * M_PI + 1e-9, "%s: the angle %g becomes %g", name.c_str(), a, got);
         EXPECT(c, fabsl(cosl((D)got) - d.x) <= 1e-6L && fabsl(sinl((D)got) - d.y) <= 1e-6L, "%s: the angle %g becomes %g instead of %Lg", name.c_str(), a, got, atan2l(d.y, d.x));
      }
   }

   // ---- rotations 3x3
   D det(const Matrix& m)
   {
      V a{m.get(0, 0), m.get(1, 0), m.get(2, 0)}, b{m.get(0, 1), m.get(1, 1), m.get(2, 1)}, k{m.get(0, 2), m.get(1, 2), m.get(2, 2)};
      return dot(cross(a, b), k);
   }
   V grid(mc::Ctx& c, int n)
   {
      int x = c.choose(2 * n + 1) - n, y = c.choose(2 * n + 1) - n, z = c.choose(2 * n + 1) - n;
      return {(D)x, (D)y, (D)z};
   }
   void between(mc::Ctx& c, const V& u, const V& v, D tol = 1e-7L)
   {
      c.trans();
      Matrix m = Matrix::generate3x3RotationMatrix(real(u), real(v));
      std::string t = "rotation from " + txt(u) + " to " + txt(v);
      V a = unit(u), b = unit(v);
      EXPECT(c, m.m == 3 && m.n == 3, "%s: shape", t.c_str());
      EXPECT(c, near(b, m * real(a), tol), "%s: leads to %s", t.c_str(), txt(of(m * real(a))).c_str());
      EXPECT(c, fabsl(det(m) - 1) <= tol, "%s: the determinant is %Lg", t.c_str(), det(m));
      for(V p : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{1, 2, 3}})for(V q : {V{1, 0, 0}, V{0, 1, 0}, V{0, 0, 1}, V{-3, 1, 2}})
            EXPECT(c, fabsl(dot(of(m * real(p)), of(m * real(q))) - dot(p, q)) <= 20 * tol, "%s: the angle between %s and %s changes", t.c_str(), txt(p).c_str(), txt(q).c_str());
      V k = cross(a, b);
      if(len(k) > 1e-3L)EXPECT(c, near(unit(k), m * real(unit(k)), tol * 10), "%s: the axis is not kept", t.c_str());
   }
}
void defineScenarios()
{
   useLibrary();
   mc::scenario("object coordinates", {3, "all extrusion vectors over -3..3 (thorough -6..6) except zero, 7 points"}, [](mc::Ctx & c)
   {
      V e = grid(c, mc::tier(3, 6));
      if(len(e) == 0)return;
      for(const V& p : POINTS)ocs(c, e, p);
   });
   mc::scenario("object coordinates near the z axis", {2, "all extrusion vectors with x and y out of 17 values around zero and 1/64, up and down, 4 lengths, 7 points"}, [](mc::Ctx & c)
   {
      static const D L = 1 / 64.0L;
      static const D X[] = {0, 1e-9L, 1e-4L, 0.01L, L - 1e-6L, L - 1e-9L, L + 1e-9L, L + 1e-6L, 0.016L, -1e-9L, -1e-4L, -0.01L, -L + 1e-6L, -L + 1e-9L, -L - 1e-9L, -L - 1e-6L, -0.016L};
      V e{X[c.choose(17)], X[c.choose(17)], 0};
      e.z = sqrtl(1 - e.x * e.x - e.y * e.y) * (c.choose(2) ? 1 : -1);
      D f[] = {1, 0.5L, 3, 1000};
      e = e * f[c.choose(4)];
      for(const V& p : POINTS)ocs(c, e, p);
   });
   mc::scenario("one transformation", {1, "all 69 transformations, 4 previous contents of the matrix"}, [](mc::Ctx & c)
   {
      chain(c, 1);
   });
   mc::scenario("two transformations", {1, "all pairs of transformations as products"}, [](mc::Ctx & c)
   {
      chain(c, 2);
   });
   if(mc::thorough())mc::scenario("three transformations", {2, "all triples of transformations as products"}, [](mc::Ctx & c)
   {
      chain(c, 3);
   });
   mc::scenario("rotations about an axis", {3, "all axes over -2..2 (thorough -4..4), all multiples of 15 degrees from -360 to 720, small and large angles"}, [](mc::Ctx & c)
   {
      V k = grid(c, mc::tier(2, 4));
      if(len(k) == 0)return;
      k = unit(k);
      V k2 = of(real(k));
      for(int i = -24; i < 52; i++)
      {
         D a = i < 48 ? i * PI / 12 : i == 48 ? 1e-7L : i == 49 ? -1e-3L : i == 50 ? 100 : 1e4L;
         a = (double)a;
         c.trans();
         Matrix m = Matrix::generate3x3RotationMatrix((double)a, real(k));
         for(const V& p : POINTS)
         {
            EXPECT(c, near(turn(p, k2, a), m * real(p)), "rotation about %s by %Lg: %s becomes %s instead of %s", txt(k).c_str(), a, txt(p).c_str(), txt(of(m * real(p))).c_str(), txt(turn(p, k2, a)).c_str());
            if(fabsl(k.x) == 1)EXPECT(c, near(turn(p, {1, 0, 0}, a), Matrix::generate3x3RotationXMatrix((double)a) * real(p)), "rotation about x by %Lg of %s", a, txt(p).c_str());
            if(fabsl(k.y) == 1)EXPECT(c, near(turn(p, {0, 1, 0}, a), Matrix::generate3x3RotationYMatrix((double)a) * real(p)), "rotation about y by %Lg of %s", a, txt(p).c_str());
            if(fabsl(k.z) == 1)EXPECT(c, near(turn(p, {0, 0, 1}, a), Matrix::generate3x3RotationZMatrix((double)a) * real(p)), "rotation about z by %Lg of %s", a, txt(p).c_str());
         }
      }
   });
   mc::scenario("rotations between vectors", {3, "all pairs of vectors over -2..2 (thorough -3..3) except zero"}, [](mc::Ctx & c)
   {
      int n = mc::tier(2, 3);
      V u = grid(c, n), v = grid(c, n);
      if(len(u) == 0 || len(v) == 0)return;
      between(c, u, v);
   });
   mc::scenario("rotations between nearly parallel vectors", {3, "all vectors over -2..2, the same or opposite one, moved by 5 distances in 26 directions, two lengths"}, [](mc::Ctx & c)
   {
      V u = grid(c, 2), d = grid(c, 1);
      int i = c.choose(6), opposite = c.choose(2), scaled = c.choose(2);
      if(len(u) == 0)return;
      static const D S[] = {0, 1e-8L, 1e-5L, 1e-4L, 1e-3L, 0.01L};
      V v = u * (opposite ? -1 : 1) + d * S[i];
      between(c, u, v * (scaled ? 0.001L : 1.0L), 2e-6L);
   });
}
