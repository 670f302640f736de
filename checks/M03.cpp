// Vertex2, Vertex3 and Geometry: every result is checked against the equation that defines it.
// mc: workers 8
#include "lib.hpp"
#include <cmath>
using namespace jm;
const char* const kProperty = "M03";

namespace
{
   typedef long double L;
   struct P3
   {
      int x, y, z;
   };
   struct P2
   {
      int x, y;
   };
   P3 operator-(P3 a, P3 b)
   {
      return {a.x - b.x, a.y - b.y, a.z - b.z};
   }
   P2 operator-(P2 a, P2 b)
   {
      return {a.x - b.x, a.y - b.y};
   }
   int dot(P3 a, P3 b)
   {
      return a.x * b.x + a.y * b.y + a.z * b.z;
   }
   int dot(P2 a, P2 b)
   {
      return a.x * b.x + a.y * b.y;
   }
   P3 cross(P3 a, P3 b)
   {
      return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
   }
   int cross(P2 a, P2 b)
   {
      return a.x * b.y - a.y * b.x;
   }
   bool null(P3 a)
   {
      return !a.x && !a.y && !a.z;
   }
   bool null(P2 a)
   {
      return !a.x && !a.y;
   }
   Vertex3 V(P3 a)
   {
      return Vertex3(a.x, a.y, a.z);
   }
   Vertex2 V(P2 a)
   {
      return Vertex2(a.x, a.y);
   }
   std::string txt(P3 a)
   {
      char b[60];
      snprintf(b, sizeof b, "(%d %d %d)", a.x, a.y, a.z);
      return b;
   }
   std::string txt(P2 a)
   {
      char b[60];
      snprintf(b, sizeof b, "(%d %d)", a.x, a.y);
      return b;
   }
   std::string txt(const Vertex3& a)
   {
      char b[100];
      snprintf(b, sizeof b, "(%.9g %.9g %.9g)", a.x, a.y, a.z);
      return b;
   }
   std::string txt(const Vertex2& a)
   {
      char b[100];
      snprintf(b, sizeof b, "(%.9g %.9g)", a.x, a.y);
      return b;
   }
   bool near(double a, double b, double tol = 1e-9)
   {
      return std::abs(a - b) <= tol * (1 + std::abs(b));
   }
   bool near(const Vertex3& a, const Vertex3& b, double tol = 1e-9)
   {
      return near(a.x, b.x, tol) && near(a.y, b.y, tol) && near(a.z, b.z, tol);
   }
   bool near(const Vertex2& a, const Vertex2& b, double tol = 1e-9)
   {
      return near(a.x, b.x, tol) && near(a.y, b.y, tol);
   }
   P3 cube(mc::Ctx& c, int lo, int hi)
   {
      int n = hi - lo + 1;
      int a = lo + c.choose(n), b = lo + c.choose(n), d = lo + c.choose(n);
      return {a, b, d};
   }
   P2 grid(mc::Ctx& c, int lo, int hi)
   {
      int n = hi - lo + 1;
      int a = lo + c.choose(n), b = lo + c.choose(n);
      return {a, b};
   }
   const P3 SPOT[] = {{0, 0, 0}, {1, 2, -3}, {-2, 5, 1}, {4, 0, 0}, {0, -1, 7}, {-3, -3, -3}};
   // foot = base + dir * num / den
   Vertex3 along(P3 base, P3 dir, L num, L den)
   {
      L t = num / den;
      return Vertex3((double)(base.x + dir.x * t), (double)(base.y + dir.y * t), (double)(base.z + dir.z * t));
   }
   double dist(const Vertex3& a, const Vertex3& b)
   {
      L x = (L)a.x - b.x, y = (L)a.y - b.y, z = (L)a.z - b.z;
      return (double)sqrtl(x * x + y * y + z * z);
   }

   // smallest angle in [0, 2 pi)
   L turn(L a)
   {
      const L T = 2 * M_PIl;
      a = fmodl(a, T);
      return a < 0 ? a + T : a;
   }
   enum On { kOff, kOn, kEdge };
   On onArc(L angle, L start, L end)
   {
      const L T = 2 * M_PIl;
      L s = turn(angle - start), e = turn(end - start);
      if(e < 1e-9L || T - e < 1e-9L)return kOn; // the full circle
      if(s < 1e-9L || T - s < 1e-9L || fabsl(s - e) < 1e-9L)return kOn; // on an end point
      if(s < 1e-5L || T - s < 1e-5L || fabsl(s - e) < 1e-5L)return kEdge; // within the tolerance
      return s < e ? kOn : kOff;
   }
   // the ray o + t d against the unit circle seen in the frame of the curve: the angle is measured there.
   // x axis (ux,uy) of length a, y axis of length b
   struct Curve
   {
      L cx, cy, ux, uy, a, b; // u is a unit vector
   };
   // 1: hit in out, 0: none, -1: too close to call
   int rayHit(L ox, L oy, L dx, L dy, const Curve& k, L start, L end, Vertex2& out)
   {
      L len = sqrtl(dx * dx + dy * dy);
      if(len == 0)return 0;
      dx /= len;
      dy /= len;
      L qx = ox - k.cx, qy = oy - k.cy;
      L Ox = (qx * k.ux + qy * k.uy) / k.a, Oy = (-qx * k.uy + qy * k.ux) / k.b;
      L Dx = (dx * k.ux + dy * k.uy) / k.a, Dy = (-dx * k.uy + dy * k.ux) / k.b;
      L A = Dx * Dx + Dy * Dy, B = Ox * Dx + Oy * Dy, C = Ox * Ox + Oy * Oy - 1;
      L disc = B * B - A * C; // t = (-B +- sqrt(disc)) / A
      L rt = disc / (A * A);
      if(rt < -1e-5L)return 0;
      if(fabsl(rt) > 1e-12L && rt < 1e-4L)return -1;
      if(rt < 1e-12L)rt = 0;
      bool unsure = false;
      for(int s = -1; s <= 1; s += 2)
      {
         L t = -B / A + s * sqrtl(rt);
         if(t < -1e-5L || fabsl(t) < 1e-8L)continue;
         if(t < 1e-5L)return -1;
         L x = Ox + t * Dx, y = Oy + t * Dy;
         On on = onArc(atan2l(y * k.b, x * k.a), start, end);
         if(on == kEdge)unsure = true;
         if(unsure)return -1;
         if(on == kOn)
         {
            out = Vertex2((double)(ox + t * dx), (double)(oy + t * dy));
            return 1;
         }
      }
      return 0;
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("plane vectors", {2, "all pairs of vectors over -3..3: products, lengths, angles, sides, rotations, operators; linear systems over all triples of -1..2"}, [](Ctx & c)
   {
      P2 a = grid(c, -3, 3), b = grid(c, -3, 3);
      c.trans();
      Vertex2 u = V(a), v = V(b);
      std::string t = txt(a) + " and " + txt(b);
      EXPECT(c, u.crossProduct(v) == cross(a, b) && u.dotProduct(v) == dot(a, b), "products of %s", t.c_str());
      EXPECT(c, u.isCollinear(v) == (cross(a, b) == 0) && u.isOrthogonal(v) == (dot(a, b) == 0), "collinear, orthogonal: %s", t.c_str());
      EXPECT(c, u.isRightTo(v) == (cross(a, b) > 0) && u.isLeftTo(v) == (cross(a, b) < 0), "right, left: %s", t.c_str());
      EXPECT(c, (u == v) == (a.x == b.x && a.y == b.y) && (u != v) == !(a.x == b.x && a.y == b.y), "equality: %s", t.c_str());
      double len = std::sqrt((double)dot(a, a));
      EXPECT(c, near(u.abs(), len, 1e-15), "length of %s", txt(a).c_str());
      Vertex2 s = u + v, d = u - v, m = 2.5 * u, m2 = u * 2.5, q = u / 2, k = u, w = u.scale(v);
      EXPECT(c, s.x == a.x + b.x && s.y == a.y + b.y && d.x == a.x - b.x && d.y == a.y - b.y && m.x == 2.5 * a.x && m.y == 2.5 * a.y
             && m2.x == m.x && m2.y == m.y && q.x == a.x / 2.0 && q.y == a.y / 2.0 && w.x == a.x * b.x && w.y == a.y * b.y, "operators: %s", t.c_str());
      k += v;
      EXPECT(c, k.x == s.x && k.y == s.y, "+=: %s", t.c_str());
      k = u;
      k -= v;
      EXPECT(c, k.x == d.x && k.y == d.y, "-=: %s", t.c_str());
      Vertex2 n = u.normalized();
      k = u;
      Vertex2& same = k.normalize();
      EXPECT(c, &same == &k && near(n, null(a) ? u : Vertex2(a.x / len, a.y / len), 1e-14) && near(k, n, 0), "normalised: %s", txt(a).c_str());
      EXPECT(c, u.x == a.x && u.y == a.y && v.x == b.x && v.y == b.y, "an operand changes: %s", t.c_str());
      EXPECT(c, u.isValid() && !Vertex2(NAN, 0).isValid() && !Vertex2(0, NAN).isValid(), "isValid()");
      if(!null(a) && !null(b))for(double f : {1.0, 1 / 3.0, 1e3})
         {
            double want = std::atan2((double)cross(a, b), (double)dot(a, b)), got = (u * f).angleTo(v * f);
            EXPECT(c, near(got, want, 1e-7) || (cross(a, b) == 0 && near(std::abs(got), std::abs(want), 1e-7)), "the angle from %s is %.12g, not %.12g", t.c_str(), got, want);
            EXPECT(c, near(jm::angleBisector(u * f, v), Vertex2(a.x / len, a.y / len) + v.normalized(), 1e-12), "bisector of %s", t.c_str());
         }
      for(int i = -24; i <= 24; i++)
      {
         double r = i * M_PI / 12;
         Vertex2 want(a.x * std::cos(r) - a.y * std::sin(r), a.x * std::sin(r) + a.y * std::cos(r));
         Vertex2 x = u.rotated(r), y = u;
         y.rotate(r);
         EXPECT(c, near(x, want, 1e-14) && near(y, want, 1e-14) && u.x == a.x && u.y == a.y, "%s rotated by %d degrees", txt(a).c_str(), i * 15);
      }
      if(cross(a, b))for(int i = -1; i <= 2; i++)for(int j = -1; j <= 2; j++)
            {
               Vertex2 x = jm::solveLinearSystem(u, v, Vertex2(i, j));
               EXPECT(c, near(a.x * x.x + b.x * x.y, i) && near(a.y * x.x + b.y * x.y, j), "%s: the solution for (%d %d) is %s", t.c_str(), i, j, txt(x).c_str());
            }
      c.state(t);
   });
   scenario("space vectors", {3, "all pairs of vectors over -3..3 / -4..4: products, lengths, angles, rotations, operators; linear independence of triples"}, [](Ctx & c)
   {
      int R = tier(3, 4);
      P3 a = cube(c, -R, R), b = cube(c, -R, R);
      c.trans();
      Vertex3 u = V(a), v = V(b);
      std::string t = txt(a) + " and " + txt(b);
      P3 x = cross(a, b);
      Vertex3 p = u.crossProduct(v);
      EXPECT(c, p.x == x.x && p.y == x.y && p.z == x.z && u.dotProduct(v) == dot(a, b), "products of %s", t.c_str());
      EXPECT(c, u.isCollinear(v) == null(x) && u.isOrthogonal(v) == (dot(a, b) == 0), "collinear, orthogonal: %s", t.c_str());
      EXPECT(c, (u == v) == null(a - b) && (u != v) == !null(a - b), "equality: %s", t.c_str());
      double len = std::sqrt((double)dot(a, a));
      EXPECT(c, near(u.abs(), len, 1e-15) && u.isNull() == null(a) && u.biggest() == std::max({a.x, a.y, a.z}), "length, null, biggest of %s", txt(a).c_str());
      Vertex3 s = u + v, d = u - v, m = 2.5 * u, m2 = u * 2.5, q = u / 2, k = u, w = u.scale(v);
      EXPECT(c, near(s, V(P3{a.x + b.x, a.y + b.y, a.z + b.z}), 0) && near(d, V(a - b), 0) && near(m, Vertex3(2.5 * a.x, 2.5 * a.y, 2.5 * a.z), 0) && near(m2, m, 0)
             && near(q, Vertex3(a.x / 2.0, a.y / 2.0, a.z / 2.0), 0) && near(w, V(P3{a.x * b.x, a.y * b.y, a.z * b.z}), 0), "operators: %s", t.c_str());
      k += v;
      EXPECT(c, near(k, s, 0), "+=: %s", t.c_str());
      k = u;
      k -= v;
      EXPECT(c, near(k, d, 0), "-=: %s", t.c_str());
      k = u;
      Vertex3& same = k.normalize();
      EXPECT(c, &same == &k && near(k, null(a) ? u : Vertex3(a.x / len, a.y / len, a.z / len), 1e-14) && near(u.normalized(), k, 0), "normalised: %s", txt(a).c_str());
      EXPECT(c, u.isValid() && !Vertex3(NAN, 0, 0).isValid() && !Vertex3(0, NAN, 0).isValid() && !Vertex3(0, 0, NAN).isValid(), "isValid()");
      if(!null(a) && !null(b))for(double f : {1.0, 1 / 3.0, 1e3})
         {
            double want = std::atan2(std::sqrt((double)dot(x, x)), (double)dot(a, b)), got = (u * f).angleTo(v * f);
            EXPECT(c, near(got, want, 1e-7), "the angle between %s is %.12g, not %.12g", t.c_str(), got, want);
            EXPECT(c, near(jm::angleBisector(u * f, v), Vertex3(a.x / len, a.y / len, a.z / len) + v.normalized(), 1e-12), "bisector of %s", t.c_str());
         }
      for(int i = -8; i <= 8; i++)
      {
         double r = i * M_PI / 6, C = std::cos(r), S = std::sin(r);
         Vertex3 y;
         y = u;
         y.rotateX(r);
         EXPECT(c, near(y, Vertex3(a.x, a.y * C - a.z * S, a.y * S + a.z * C), 1e-14), "%s around x by %d", txt(a).c_str(), i * 30);
         y = u;
         y.rotateY(r);
         EXPECT(c, near(y, Vertex3(a.x * C + a.z * S, a.y, a.z * C - a.x * S), 1e-14), "%s around y by %d", txt(a).c_str(), i * 30);
         y = u;
         y.rotateZ(r);
         EXPECT(c, near(y, Vertex3(a.x * C - a.y * S, a.x * S + a.y * C, a.z), 1e-14) && near(u.rotatedZ(r), y, 0), "%s around z by %d", txt(a).c_str(), i * 30);
         if(null(b))continue;
         // Rodrigues: v cos + (k x v) sin + k (k.v)(1 - cos)
         double l = std::sqrt((double)dot(b, b));
         P3 kv = cross(b, a);
         double f = dot(a, b) * (1 - C) / (l * l);
         Vertex3 want(a.x * C + kv.x * S / l + b.x * f, a.y * C + kv.y * S / l + b.y * f, a.z * C + kv.z * S / l + b.z * f);
         y = u;
         y.rotate(r, v);
         EXPECT(c, near(y, want, 1e-12), "%s around %s by %d is %s, not %s", txt(a).c_str(), txt(b).c_str(), i * 30, txt(y).c_str(), txt(want).c_str());
      }
      for(const P3& z : SPOT)EXPECT(c, jm::isLinearIndependent(u, v, V(z)) == (dot(x, z) != 0), "linear independence of %s and %s", t.c_str(), txt(z).c_str());
      EXPECT(c, near(u, V(a), 0) && near(v, V(b), 0), "an operand changes: %s", t.c_str());
      EXPECT(c, jm::isSamePoint(u, v) == null(a - b) && near(jm::distancePointToPoint(u, v), std::sqrt((double)dot(a - b, a - b)), 1e-14), "same point, distance: %s", t.c_str());
      EXPECT(c, near(jm::distancePointToPoint(Vertex2(a.x, a.y), Vertex2(b.x, b.y)), std::hypot(a.x - b.x, a.y - b.y), 1e-14), "plane distance: %s", t.c_str());
      c.state(t);
   });
   scenario("lines and planes", {4, "6 positions x 6 positions, all normals and directions over -1..2, as lines and as line segments"}, [](Ctx & c)
   {
      P3 p = SPOT[c.choose(6)], n = cube(c, -1, 2), l = SPOT[c.choose(6)];
      for(int i = 0; i < 64; i++)
      {
         P3 d = {i % 4 - 1, i / 4 % 4 - 1, i / 16 - 1};
         int den = dot(n, d), num = dot(n, p - l);
         for(int extend = 0; extend < 2; extend++)
         {
            c.trans();
            Vertex3 x = jm::intersectionPointLineAndPlane(V(p), V(n), V(l), V(d), extend);
            bool want = den != 0 && (extend || (num * den >= 0 && std::abs(num) <= std::abs(den)));
            EXPECT(c, x.isValid() == want, "plane %s normal %s, line %s direction %s%s: %s", txt(p).c_str(), txt(n).c_str(), txt(l).c_str(), txt(d).c_str(), extend ? " extended" : "", txt(x).c_str());
            if(want)EXPECT(c, near(x, along(l, d, num, den)), "plane %s normal %s, line %s direction %s: %s", txt(p).c_str(), txt(n).c_str(), txt(l).c_str(), txt(d).c_str(), txt(x).c_str());
         }
      }
      c.state(txt(p) + txt(n) + txt(l));
   });
   scenario("a point and a plane, line or line segment", {4, "all points over -2..2, 6 positions, all normals/directions over -1..2"}, [](Ctx & c)
   {
      P3 p = cube(c, -2, 2), o = SPOT[c.choose(6)], n = cube(c, -1, 2);
      if(null(n))c.discard();
      c.trans();
      int nn = dot(n, n), s = dot(n, p - o);
      Vertex3 P_ = V(p), O = V(o), N = V(n);
      std::string t = txt(p) + " to " + txt(o) + " along " + txt(n);
      Vertex3 foot = along(p, n, -s, nn);
      double dp = std::abs(s) / std::sqrt((double)nn);
      EXPECT(c, near(jm::closestPointOnPlane(P_, O, N), foot) && near(jm::distancePointToPlane(P_, O, N), dp), "plane: %s", t.c_str());
      EXPECT(c, jm::isPointOnPlane(P_, O, N) == (s == 0) && jm::isPointOnPlane(P_, O, N, dp + 0.01) && (dp < 0.02 || !jm::isPointOnPlane(P_, O, N, dp - 0.01)), "on plane: %s", t.c_str());
      foot = along(o, n, s, nn);
      double dl = dist(P_, foot);
      EXPECT(c, near(jm::closestPointOnLine(P_, O, N), foot) && near(jm::distancePointToLine(P_, O, N), dl), "line: %s", t.c_str());
      EXPECT(c, jm::isPointOnLine(P_, O, N) == null(cross(n, p - o)), "on line: %s", t.c_str());
      // the segment from o to o + n
      P3 e = {o.x + n.x, o.y + n.y, o.z + n.z};
      bool within = s >= 0 && s <= nn;
      Vertex3 x = jm::closestPointOnLine(P_, O, V(e), true), y = jm::closestPointOnLine(P_, O, V(e), false);
      EXPECT(c, near(x, foot) && y.isValid() == within && (!within || near(y, foot)), "segment: %s: %s", t.c_str(), txt(y).c_str());
      double ds = within ? dl : std::min(dist(P_, O), dist(P_, V(e)));
      EXPECT(c, near(jm::distancePointToLine(P_, O, V(e), true), dl) && near(jm::distancePointToLine(P_, O, V(e), false), ds), "distance to the segment: %s: %g, not %g", t.c_str(), jm::distancePointToLine(P_, O, V(e), false), ds);
      EXPECT(c, jm::isPointOnLine(P_, O, V(e), true) == null(cross(n, p - o)) && jm::isPointOnLine(P_, O, V(e), false) == (null(cross(n, p - o)) && within), "on segment: %s", t.c_str());
      // the same in the plane
      P2 p2 = {p.x, p.y}, o2 = {o.x, o.y}, n2 = {n.x, n.y};
      if(!null(n2))
      {
         L k = (L)dot(n2, p2 - o2) / dot(n2, n2);
         EXPECT(c, near(jm::closestPointOnLine(V(p2), V(o2), V(n2)), Vertex2((double)(o.x + n.x * k), (double)(o.y + n.y * k))), "plane line: %s", t.c_str());
      }
      // circle around o
      for(double r : {1.0, 2.5, std::sqrt(2.0)})
      {
         Vertex3 q = jm::closestPointOnCircle(P_, O, r, N);
         foot = along(p, n, -s, nn);
         double rho = dist(foot, O), want = std::hypot(dp, rho - r);
         EXPECT(c, near(dist(q, O), r) && near((q.x - o.x) * n.x + (q.y - o.y) * n.y + (q.z - o.z) * n.z, 0), "closest point on the circle with radius %g: %s: %s", r, t.c_str(), txt(q).c_str());
         EXPECT(c, near(dist(q, P_), want) && near(jm::distancePointToCircle(P_, O, r, N), want), "distance to the circle with radius %g: %s: %g, not %g", r, t.c_str(), jm::distancePointToCircle(P_, O, r, N), want);
         EXPECT(c, jm::isPointOnCircle(P_, O, r, N) == (want < 1e-7), "on the circle with radius %g: %s", r, t.c_str());
      }
      EXPECT(c, !jm::closestPointOnCircle(P_, O, 0, N).isValid(), "a circle without radius");
      c.state(t);
   });
   scenario("two lines in space", {4, "6 positions x 6 positions, all pairs of directions over -1..2"}, [](Ctx & c)
   {
      P3 p = SPOT[c.choose(6)], q = SPOT[c.choose(6)], d = cube(c, -1, 2);
      if(null(d))c.discard();
      for(int i = 0; i < 64; i++)
      {
         P3 e = {i % 4 - 1, i / 4 % 4 - 1, i / 16 - 1};
         if(null(e))continue;
         c.trans();
         std::string t = txt(p) + "+" + txt(d) + " and " + txt(q) + "+" + txt(e);
         P3 n = cross(d, e), w = q - p;
         double got = jm::distanceLineToLine(V(p), V(d), V(q), V(e)), want;
         if(null(n))
         {
            P3 x = cross(d, w);
            want = std::sqrt((double)dot(x, x) / dot(d, d));
         }
         else want = std::abs(dot(n, w)) / std::sqrt((double)dot(n, n));
         EXPECT(c, near(got, want), "the distance of %s is %.12g, not %.12g", t.c_str(), got, want);
         bool meet = !null(n) && dot(n, w) == 0;
         Vertex3 x = jm::intersectionPoint(V(p), V(d), V(q), V(e));
         EXPECT(c, x.isValid() == meet, "%s %s", t.c_str(), meet ? "do not meet" : "meet");
         if(null(n))continue;
         // q + e * t with ((q + e t) - p) . (d x n) = 0
         P3 m = cross(d, n);
         Vertex3 foot = along(q, e, dot(p - q, m), dot(e, m));
         Vertex3 y = jm::closestPointOnLine(V(p), V(d), V(q), V(e));
         EXPECT(c, near(y, foot), "%s: the closest point of the second is %s, not %s", t.c_str(), txt(y).c_str(), txt(foot).c_str());
         if(meet)EXPECT(c, near(x, foot), "%s meet in %s, not %s", t.c_str(), txt(foot).c_str(), txt(x).c_str());
      }
      c.state(txt(p) + txt(q) + txt(d));
   });
   scenario("two lines in the plane", {3, "all quadruples of points of a 5x5 grid / 6x6 grid as lines, segments and rays"}, [](Ctx & c)
   {
      int R = tier(4, 5);
      P2 a = grid(c, 0, R), b = grid(c, 0, R);
      if(a.x == b.x && a.y == b.y)c.discard();
      for(int i = 0; i < (R + 1) * (R + 1); i++)for(int k = 0; k < (R + 1) * (R + 1); k++)
         {
            P2 s = {i % (R + 1), i / (R + 1)}, e = {k % (R + 1), k / (R + 1)};
            if(i == k)continue;
            c.trans();
            P2 d = b - a, f = e - s;
            std::string t = txt(a) + "-" + txt(b) + " and " + txt(s) + "-" + txt(e);
            int den = cross(d, f);
            Vertex2 x = jm::intersectionPoint(V(a), V(d), V(s), V(f));
            EXPECT(c, x.isValid() == (den != 0), "lines %s: %s", t.c_str(), txt(x).c_str());
            // parameters as fractions with a positive denominator
            int u = cross(s - a, f), v = cross(s - a, d), g = den;
            if(g < 0)u = -u, v = -v, g = -g;
            bool in1 = u >= 0 && u <= g, in2 = v >= 0 && v <= g;
            Vertex2 want;
            if(den)
            {
               want = Vertex2(a.x + (double)u * d.x / g, a.y + (double)u * d.y / g);
               EXPECT(c, near(x, want), "lines %s meet in %s, not %s", t.c_str(), txt(want).c_str(), txt(x).c_str());
            }
            EXPECT(c, jm::crosses(V(a), V(b), V(s), V(e)) == (den && in1 && in2), "segments %s", t.c_str());
            for(double scale : {1.0, 50.0, 0.02})
            {
               x = jm::extensionPointOnLine(V(a), V(d) * scale, V(s), V(e));
               bool hit = den && u > 0 && in2;
               EXPECT(c, x.isValid() == hit, "ray and segment %s: %s", t.c_str(), txt(x).c_str());
               if(hit)EXPECT(c, near(x, want), "ray and segment %s meet in %s, not %s", t.c_str(), txt(want).c_str(), txt(x).c_str());
            }
         }
      c.state(txt(a) + txt(b));
   });
   scenario("two circles", {4, "all centres over -5..5, radii 0..6, in units of 1, 0.1 and 1/3, around the origin and away from it"}, [](Ctx & c)
   {
      P2 d = grid(c, -5, 5);
      int r1 = c.choose(7), r2 = c.choose(7);
      for(double f : {1.0, 0.1, 1 / 3.0})for(int base = 0; base < 2; base++)
         {
            c.trans();
            P2 o = base ? P2{7, -11} : P2{0, 0};
            Vertex2 c1 = V(o) * f, c2 = Vertex2(o.x + d.x, o.y + d.y) * f, x(1, 1), y(1, 1);
            jm::intersectionPointsOfCircles(c1, r1 * f, c2, r2 * f, x, y);
            int D = dot(d, d), out = (r1 + r2) * (r1 + r2), in = (r1 - r2) * (r1 - r2);
            bool meet = D <= out && D >= in && !(D == 0 && r1 == r2);
            char t[200];
            snprintf(t, sizeof t, "circles %s %g and %s %g: %s and %s", txt(c1).c_str(), r1 * f, txt(c2).c_str(), r2 * f, txt(x).c_str(), txt(y).c_str());
            EXPECT(c, x.isValid() == meet && y.isValid() == meet, "%s", t);
            if(!meet)continue;
            double tol = D == out || D == in ? 1e-6 : 1e-9;
            for(const Vertex2& p : {x, y})EXPECT(c, near((p - c1).abs(), r1 * f, tol) && near((p - c2).abs(), r2 * f, tol), "%s: not on both circles", t);
            EXPECT(c, D == out || D == in ? near(x, y, 1e-6) : (x - y).abs() > 1e-3, "%s: number of points", t);
         }
      c.state(txt(d) + std::to_string(r1) + std::to_string(r2));
   });
   scenario("rays and arcs", {4, "all origins over -3..3, all directions over -2..2 (also 1000 times as long and 1/1000), 3 circles, arcs between multiples of 45 degrees from -360 to 720, and some up to four turns away"}, [](Ctx & c)
   {
      P2 o = grid(c, -3, 3), d = grid(c, -2, 2);
      if(null(d))c.discard();
      static const int C[][3] = {{0, 0, 2}, {1, -1, 1}, {-2, 1, 5}};
      auto& k = C[c.choose(3)];
      Curve cv = {(L)k[0], (L)k[1], 1, 0, (L)k[2], (L)k[2]};
      static const int TURNS[] = {-27, -18, -12, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 21, 28, 34};
      for(int s : TURNS)for(int e : TURNS)
         {
            L start = s * M_PIl / 4, end = e * M_PIl / 4;
            Vertex2 want;
            int hit = rayHit(o.x, o.y, d.x, d.y, cv, start, end, want);
            if(hit < 0)continue;
            for(double f : {1.0, 1000.0, 0.001})
            {
               c.trans();
               Vertex2 x = jm::extensionPointOnArc(V(o), V(d) * f, Vertex2(k[0], k[1]), k[2], (double)start, (double)end);
               EXPECT(c, x.isValid() == (hit == 1), "ray %s to %s * %g, circle %s %d from %d to %d degrees: %s", txt(o).c_str(), txt(d).c_str(), f, txt(P2{k[0], k[1]}).c_str(), k[2], s * 45, e * 45, txt(x).c_str());
               if(hit)EXPECT(c, near(x, want, 1e-6), "ray %s to %s * %g, circle %s %d from %d to %d degrees: %s, not %s", txt(o).c_str(), txt(d).c_str(), f, txt(P2{k[0], k[1]}).c_str(), k[2], s * 45, e * 45, txt(x).c_str(), txt(want).c_str());
            }
         }
      c.state(txt(o) + txt(d) + std::to_string(k[2]));
   });
   scenario("rays and ellipses", {4, "all origins over -3..3, all directions over -2..2 (also 1000 times as long and 1/1000), 2 centres, 6 main axes, 3 ratios, arcs between multiples of 90 degrees"}, [](Ctx & c)
   {
      P2 o = grid(c, -3, 3), d = grid(c, -2, 2);
      if(null(d))c.discard();
      static const int X[][2] = {{2, 0}, {0, 3}, {3, 4}, {-1, 1}, {-2, 0}, {1, -2}};
      static const double RATIO[] = {0.5, 0.25, 1};
      auto& ax = X[c.choose(6)];
      P2 ce = c.choose(2) ? P2{1, -2} : P2{0, 0};
      for(double ratio : RATIO)
      {
         L len = sqrtl(ax[0] * ax[0] + ax[1] * ax[1]);
         Curve cv = {(L)ce.x, (L)ce.y, ax[0] / len, ax[1] / len, len, len * ratio};
         for(int s = -2; s <= 5; s++)for(int e = 0; e <= 4; e++)
            {
               L start = s * M_PIl / 2, end = e * M_PIl / 2;
               Vertex2 want;
               int hit = rayHit(o.x, o.y, d.x, d.y, cv, start, end, want);
               if(hit < 0)continue;
               for(double f : {1.0, 1000.0, 0.001})
               {
                  c.trans();
                  Vertex2 x = jm::extensionPointOnEllipse(V(o), V(d) * f, V(ce), Vertex2(ax[0], ax[1]), ratio, (double)start, (double)end);
                  char t[300];
                  snprintf(t, sizeof t, "ray %s to %s * %g, ellipse %s axis (%d %d) ratio %g from %d to %d degrees: %s", txt(o).c_str(), txt(d).c_str(), f, txt(ce).c_str(), ax[0], ax[1], ratio, s * 90, e * 90, txt(x).c_str());
                  EXPECT(c, x.isValid() == (hit == 1), "%s", t);
                  if(hit)EXPECT(c, near(x, want, 1e-6), "%s, not %s", t, txt(want).c_str());
               }
            }
      }
      c.state(txt(o) + txt(d) + std::to_string(ax[0]) + txt(ce));
   });
   scenario("circles through points and along tangents", {3, "all triples of points of a 5x5 grid; all pairs of tangents through points of a 3x3 grid, directions over -1..2, 3 radii"}, [](Ctx & c)
   {
      P2 a = grid(c, -1, 3), b = grid(c, -1, 3);
      for(int i = 0; i < 25; i++)
      {
         P2 e = {i % 5 - 1, i / 5 - 1};
         c.trans();
         Vertex2 m(9, 9);
         double r = -1;
         Status s = jm::circleParameterBy3Points(m, r, V(a), V(b), V(e));
         bool want = cross(b - a, e - a) != 0;
         std::string t = txt(a) + txt(b) + txt(e);
         EXPECT(c, (s == Status::eOK) == want, "circle through %s", t.c_str());
         if(want)EXPECT(c, near((m - V(a)).abs(), r) && near((m - V(b)).abs(), r) && near((m - V(e)).abs(), r), "circle through %s: %s radius %g", t.c_str(), txt(m).c_str(), r);
      }
      if(a.x > 1 || a.y > 1 || b.x > 1 || b.y > 1)
      {
         c.state(txt(a) + txt(b));
         return;
      }
      for(int i = 0; i < 256; i++)for(double r : {1.0, 0.5, 7.0})
         {
            P2 d = {i % 4 - 1, i / 4 % 4 - 1}, e = {i / 16 % 4 - 1, i / 64 - 1};
            if(null(d) || null(e))continue;
            c.trans();
            Vertex2 m(9, 9);
            Status s = jm::circleParameterBy2TangentsRadius(m, r, V(a), V(d), V(b), V(e));
            int den = cross(d, e);
            char t[200];
            snprintf(t, sizeof t, "radius %g along %s+%s and %s+%s: %s", r, txt(a).c_str(), txt(d).c_str(), txt(b).c_str(), txt(e).c_str(), txt(m).c_str());
            EXPECT(c, (s == Status::eOK) == (den != 0), "%s", t);
            if(!den)continue;
            auto off = [&](P2 p, P2 v)
            {
               return ((m.x - p.x) * v.y - (m.y - p.y) * v.x) / std::sqrt((double)dot(v, v));
            };
            EXPECT(c, near(std::abs(off(a, d)), r) && near(std::abs(off(b, e)), r), "%s does not touch both lines", t);
            // the quadrant: from the common point towards a and b, or along the direction if that is the point itself
            double u = (double)cross(b - a, e) / den, v = (double)cross(b - a, d) / den; // ctrl = a + u d = b + v e
            double sd = u == 0 ? 1 : -u, se = v == 0 ? 1 : -v;
            double cx = a.x + u * d.x, cy = a.y + u * d.y, mx = m.x - cx, my = m.y - cy;
            double kd = (mx * e.y - my * e.x) / den, ke = (d.x * my - d.y * mx) / den; // m - ctrl = kd d + ke e
            EXPECT(c, kd * sd > 0 && ke * se > 0, "%s is in another quadrant", t);
         }
      c.state(txt(a) + txt(b));
   });
   scenario("text of a vertex", {1, "Vertex2, Vertex3 and Vector of 0..3 coordinates from 9 values: the coordinates in their order, in a stream and in a String"}, [](Ctx & c)
   {
      static const double kV[] = {0, 1, -1, 2.5, -0.125, 1000, 123456, 1e-3, -7.25};
      double x = kV[c.choose(9)], y = kV[c.choose(9)], z = kV[c.choose(9)];
      auto numbers = [](const std::string& s)
      {
         // every number in the text; brackets, commas and blanks separate them
         std::vector<double> r;
         std::string t;
         for(char ch : s + " ")
         {
            if(strchr("0123456789+-.e", ch))t += ch;
            else if(!t.empty())
            {
               r.push_back(strtod(t.c_str(), nullptr));
               t.clear();
            }
         }
         return r;
      };
      auto check = [&](const char* what, const std::string& s, const std::vector<double>& want)
      {
         EXPECT(c, s.size() >= 2 && s.front() == '[' && s.back() == ']', "%s: '%s' is not in brackets", what, s.c_str());
         auto n = numbers(s);
         EXPECT(c, n == want, "%s of %g, %g, %g: '%s'", what, x, y, z, s.c_str());
      };
      std::ostringstream a, b, d;
      EXPECT(c, &(a << Vertex2(x, y)) == &a, "the stream is not returned");
      check("Vertex2", a.str(), {x, y});
      b << Vertex3(x, y, z);
      check("Vertex3", b.str(), {x, y, z});
      String s;
      s << Vertex3(x, y, z);
      // String << double rounds to what String::valueOf gives
      std::string want = P(String("[") + String::valueOf(x) + " " + String::valueOf(y) + " " + String::valueOf(z) + "]");
      EXPECT(c, P(s) == want, "String << Vertex3: '%s' instead of '%s'", P(s).c_str(), want.c_str());
      int n = c.choose(4);
      Vector v(n);
      double p[] = {x, y, z};
      for(int i = 0; i < n; i++)v.data[i] = p[i];
      d << v;
      check("Vector", d.str(), std::vector<double>(p, p + n));
      c.state(a.str() + b.str() + d.str());
   });
   scenario("vertices made of other vertices", {1, "5 values for every coordinate"}, [](Ctx & c)
   {
      static const double kV[] = {0, 1, -2.5, 1e9, -1e-9};
      double x = kV[c.choose(5)], y = kV[c.choose(5)], z = kV[c.choose(5)];
      Vertex3 v(x, y, z);
      Vertex2 flat(v);
      EXPECT(c, flat.x == x && flat.y == y, "Vertex2 of %s is %s", txt(v).c_str(), txt(flat).c_str());
      Vertex3 w(flat, z);
      EXPECT(c, w.x == x && w.y == y && w.z == z, "Vertex3 of Vertex2 and z: %s instead of %s", txt(w).c_str(), txt(v).c_str());
      Vertex3 copy(v), assigned;
      assigned = v;
      EXPECT(c, copy.x == x && copy.y == y && copy.z == z && assigned.x == x && assigned.y == y && assigned.z == z, "copies of %s", txt(v).c_str());
      c.state(txt(v));
   });
}
