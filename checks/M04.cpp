// Rectangles, extents, points and sizes against sets of points.
// mc: workers 8
#include "lib.hpp"
#include <cmath>
using namespace jm;
const char* const kProperty = "M04";

namespace
{
   // a rectangle by its edges; r<l or b<t before normalize()
   struct R
   {
      double l = 0, t = 0, r = 0, b = 0;
      bool operator==(const R& o) const
      {
         return l == o.l && t == o.t && r == o.r && b == o.b;
      }
      bool normal() const
      {
         return l <= r && t <= b;
      }
      bool has(double x, double y) const
      {
         return x >= l && x <= r && y >= t && y <= b;
      }
   };
   std::string txt(const R& a)
   {
      return mc::fmt("[%g..%g]x[%g..%g]", a.l, a.r, a.t, a.b);
   }
   R of(const Rect& q)
   {
      return {q.left(), q.top(), q.right(), q.bottom()};
   }
   Rect real(const R& a)
   {
      return Rect(a.l, a.t, a.r - a.l, a.b - a.t);
   }
   bool at(const Point& p, double x, double y)
   {
      return p.x() == x && p.y() == y;
   }
   // everything that can be read off a rectangle
   void agree(mc::Ctx& c, const R& a, const Rect& q, const char* after)
   {
      EXPECT(c, of(q) == a, "%s: the edges are %s instead of %s", after, txt(of(q)).c_str(), txt(a).c_str());
      double w = a.r - a.l, h = a.b - a.t, cx = a.l + w / 2, cy = a.t + h / 2;
      EXPECT(c, q.x() == a.l && q.y() == a.t && at(q.origin(), a.l, a.t), "%s: origin of %s", after, txt(a).c_str());
      EXPECT(c, q.width() == w && q.height() == h && q.size().width() == w && q.size().height() == h, "%s: size of %s is %g x %g", after, txt(a).c_str(), q.width(), q.height());
      EXPECT(c, at(q.topLeft(), a.l, a.t), "%s: topLeft of %s", after, txt(a).c_str());
      EXPECT(c, at(q.topRight(), a.r, a.t), "%s: topRight of %s", after, txt(a).c_str());
      EXPECT(c, at(q.bottomLeft(), a.l, a.b), "%s: bottomLeft of %s", after, txt(a).c_str());
      EXPECT(c, at(q.bottomRight(), a.r, a.b), "%s: bottomRight of %s", after, txt(a).c_str());
      EXPECT(c, at(q.topCenter(), cx, a.t), "%s: topCenter of %s", after, txt(a).c_str());
      EXPECT(c, at(q.bottomCenter(), cx, a.b), "%s: bottomCenter of %s", after, txt(a).c_str());
      EXPECT(c, at(q.leftCenter(), a.l, cy), "%s: leftCenter of %s", after, txt(a).c_str());
      EXPECT(c, at(q.rightCenter(), a.r, cy), "%s: rightCenter of %s", after, txt(a).c_str());
      EXPECT(c, at(q.center(), cx, cy), "%s: center of %s", after, txt(a).c_str());
      EXPECT(c, q.isEmpty() == (w == 0 || h == 0), "%s: isEmpty of %s is %d", after, txt(a).c_str(), (int)q.isEmpty());
   }
   R meet(const R& a, const R& b)
   {
      R m{std::max(a.l, b.l), std::max(a.t, b.t), std::min(a.r, b.r), std::min(a.b, b.b)};
      return m.normal() ? m : R{};
   }
   bool disjoint(const R& a, const R& b)
   {
      return a.l > b.r || b.l > a.r || a.t > b.b || b.t > a.b;
   }
   R join(const R& a, const R& b)
   {
      return {std::min(a.l, b.l), std::min(a.t, b.t), std::max(a.r, b.r), std::max(a.b, b.b)};
   }

   // ---- all pairs of rectangles of a grid, moved to several places of the plane
   void pairs(mc::Ctx& c)
   {
      int n = mc::tier(3, 4);
      static const double PLACE[][3] = {{0, 0, 1}, {-2, -1, 1}, {-3, -3, 0.5}, {1000001, -70, 0.25}, {0, 0, 0.0009765625}};
      int shard = c.choose(5);
      double ox = PLACE[shard][0], oy = PLACE[shard][1], s = PLACE[shard][2];
      auto rect = [&]
      {
         int l = c.choose(n), w = c.choose(n - l), t = c.choose(n), h = c.choose(n - t);
         return R{ox + s * l, oy + s * t, ox + s * (l + w), oy + s * (t + h)};
      };
      R a = rect();
      Rect A = real(a);
      agree(c, a, A, "constructed");
      agree(c, a, Rect(Point(a.l, a.t), Size(a.r - a.l, a.b - a.t)), "constructed from origin and size");
      agree(c, a, Rect(a.l, a.t, Size(a.r - a.l, a.b - a.t)), "constructed from coordinates and size");
      for(int i = -2; i <= 2 * n; i++)for(int k = -2; k <= 2 * n; k++)
         {
            double x = ox + s * i / 2, y = oy + s * k / 2;
            c.trans();
            EXPECT(c, A.contains(x, y) == a.has(x, y) && A.contains(Point(x, y)) == a.has(x, y) && A.contains(Vertex2(x, y)) == a.has(x, y),
                   "%s contains (%g,%g): %d", txt(a).c_str(), x, y, (int)A.contains(x, y));
         }
      R b = rect();
      Rect B = real(b);
      c.trans();
      EXPECT(c, A.intersects(B) == !disjoint(a, b), "%s intersects %s: %d", txt(a).c_str(), txt(b).c_str(), (int)A.intersects(B));
      agree(c, meet(a, b), A.intersection(B), mc::fmt("intersection of %s and %s", txt(a).c_str(), txt(b).c_str()).c_str());
      Rect C = A;
      C.intersect(B);
      agree(c, meet(a, b), C, mc::fmt("%s.intersect(%s)", txt(a).c_str(), txt(b).c_str()).c_str());
      C = A;
      C.unionWith(B);
      agree(c, join(a, b), C, mc::fmt("%s.unionWith(%s)", txt(a).c_str(), txt(b).c_str()).c_str());
      C = A;
      C.alignTopLeft(B);
      agree(c, R{b.l, b.t, b.l + (a.r - a.l), b.t + (a.b - a.t)}, C, "alignTopLeft");
      C = A;
      C.alignBottomLeft(B);
      agree(c, R{b.l, b.b - (a.b - a.t), b.l + (a.r - a.l), b.b}, C, "alignBottomLeft");
      agree(c, a, A, "read only operations");
      agree(c, b, B, "as an argument");
   }

   // ---- all sequences of changes
   void histories(mc::Ctx& c)
   {
      R a;
      Rect A;
      agree(c, a, A, "default constructed");
      int first = c.choose(5);
      if(first)
      {
         static const R START[] = {{0, 0, 3, 2}, {-2, 1, 5, 2}, {1, -4, 1, 3}, {-1.5, -2.25, 4, -0.5}};
         a = START[first - 1];
         A = real(a);
      }
      int depth = mc::tier(3, 4);
      static const double V[] = {-1, 0.5, 4};
      static const R OTHER[] = {{0, 0, 0, 0}, {-1, -1, 2, 7}, {2, 1, 3, 3}, {10, 10, 12, 11}};
      for(int i = 0; i < depth; i++)
      {
         int op = c.choose(25);
         double v = 0, w = a.r - a.l, h = a.b - a.t;
         R o;
         if(op < 18)v = V[c.choose(3)];
         else if(op >= 20 && op < 24)o = OTHER[c.choose(4)];
         Rect O = real(o);
         std::string name;
         switch(op)
         {
            case 0: A.setX(v), a.r = v + w, a.l = v, name = "setX"; break;
            case 1: A.setY(v), a.b = v + h, a.t = v, name = "setY"; break;
            case 2: A.setWidth(v), a.r = a.l + v, name = "setWidth"; break;
            case 3: A.setHeight(v), a.b = a.t + v, name = "setHeight"; break;
            case 4: A.setSize(v, v + 1), a.r = a.l + v, a.b = a.t + v + 1, name = "setSize"; break;
            case 5: A.setSize(Size(v, v - 1)), a.r = a.l + v, a.b = a.t + v - 1, name = "setSize(Size)"; break;
            case 6: A.setOrigin(v, v + 1), a = R{v, v + 1, v + w, v + 1 + h}, name = "setOrigin"; break;
            case 7: A.setOrigin(Point(v, 2 - v)), a = R{v, 2 - v, v + w, 2 - v + h}, name = "setOrigin(Point)"; break;
            case 8: A.setLeft(v), a.l = v, name = "setLeft"; break;
            case 9: A.setRight(v), a.r = v, name = "setRight"; break;
            case 10: A.setTop(v), a.t = v, name = "setTop"; break;
            case 11: A.setBottom(v), a.b = v, name = "setBottom"; break;
            case 12: A.shiftLeft(v), a.l += v, name = "shiftLeft"; break;
            case 13: A.shiftRight(v), a.r += v, name = "shiftRight"; break;
            case 14: A.shiftTop(v), a.t += v, name = "shiftTop"; break;
            case 15: A.shiftBottom(v), a.b += v, name = "shiftBottom"; break;
            case 16: A.moveHorizontal(v), a.l += v, a.r += v, name = "moveHorizontal"; break;
            case 17: A.moveVertical(v), a.t += v, a.b += v, name = "moveVertical"; break;
            case 18: A.move(Point(2, -0.5)), a.l += 2, a.r += 2, a.t -= 0.5, a.b -= 0.5, name = "move"; break;
            case 19:
               A.normalize();
               if(a.l > a.r)std::swap(a.l, a.r);
               if(a.t > a.b)std::swap(a.t, a.b);
               name = "normalize";
               break;
            case 20: // defined for rectangles that are normalised
               if(!a.normal())return;
               A.unionWith(O), a = join(a, o), name = "unionWith";
               break;
            case 21:
               if(!a.normal())return;
               A.intersect(O), a = meet(a, o), name = "intersect";
               break;
            case 22: A.alignTopLeft(O), a = R{o.l, o.t, o.l + w, o.t + h}, name = "alignTopLeft"; break;
            case 23: A.alignBottomLeft(O), a = R{o.l, o.b - h, o.l + w, o.b}, name = "alignBottomLeft"; break;
            case 24: A.moveLeft(1), A.moveRight(2), A.moveBottom(-1), a.l += 1, a.r += 2, a.b -= 1, name = "moveLeft, moveRight, moveBottom"; break;
         }
         c.step("%s(%g|%s)", name.c_str(), v, txt(o).c_str());
         c.trans();
         agree(c, a, A, name.c_str());
         agree(c, o, O, "as an argument");
         for(double x : {a.l - 0.5, a.l, (a.l + a.r) / 2, a.r, a.r + 0.5})for(double y : {a.t - 0.5, a.t, (a.t + a.b) / 2, a.b, a.b + 0.5})
               EXPECT(c, A.contains(x, y) == a.has(x, y), "%s contains (%g,%g): %d", txt(a).c_str(), x, y, (int)A.contains(x, y));
      }
      c.state(mc::fmt("%s", txt(a).c_str()));
   }

   // ---- extents: all sequences of points and other extents
   struct X
   {
      bool xy = false, z = false;
      double lo[3] = {}, hi[3] = {};
      void add(int k, double v, bool first)
      {
         lo[k] = first ? v : std::min(lo[k], v);
         hi[k] = first ? v : std::max(hi[k], v);
      }
      void add(double x, double y)
      {
         add(0, x, !xy), add(1, y, !xy);
         xy = true;
      }
      void add(double x, double y, double zz)
      {
         add(x, y);
         add(2, zz, !z);
         z = true;
      }
      void add(const X& o)
      {
         if(!o.xy)return;
         add(o.lo[0], o.lo[1]);
         add(o.hi[0], o.hi[1]);
         if(!o.z)return;
         add(2, o.lo[2], !z);
         z = true;
         add(2, o.hi[2], false);
      }
   };
   void agree(mc::Ctx& c, const X& x, const Extents& e, const std::string& h)
   {
      EXPECT(c, e.isValid() == x.xy, "%s: isValid is %d", h.c_str(), (int)e.isValid());
      if(!x.xy)return;
      Vertex3 a = e.minPoint(), b = e.maxPoint(), d = e.delta();
      EXPECT(c, a.x == x.lo[0] && a.y == x.lo[1] && b.x == x.hi[0] && b.y == x.hi[1], "%s: x from %g to %g, y from %g to %g", h.c_str(), a.x, b.x, a.y, b.y);
      EXPECT(c, d.x == x.hi[0] - x.lo[0] && d.y == x.hi[1] - x.lo[1], "%s: delta %g,%g", h.c_str(), d.x, d.y);
      if(!x.z)return;
      EXPECT(c, a.z == x.lo[2] && b.z == x.hi[2], "%s: z from %g to %g instead of %g to %g", h.c_str(), a.z, b.z, x.lo[2], x.hi[2]);
      EXPECT(c, d.z == x.hi[2] - x.lo[2], "%s: delta z is %g", h.c_str(), d.z);
   }
   void extents(mc::Ctx& c)
   {
      Extents e[2];
      X x[2];
      static const double V[][3] = {{0, 0, 0}, {-3, 2, 5}, {7, -1, -2}, {-100000, 250000, 1}, {1, 1, 1e6}, {0.125, -8, -0.5}};
      int depth = mc::tier(5, 6);
      std::string h;
      agree(c, x[0], e[0], "empty");
      for(int i = 0; i < depth; i++)
      {
         int op = c.choose(15);
         if(op < 6)
         {
            const double* v = V[op];
            e[i % 2].add(Vertex3(v[0], v[1], v[2])), x[i % 2].add(v[0], v[1], v[2]);
            h += mc::fmt("%d+(%g,%g,%g) ", i % 2, v[0], v[1], v[2]);
         }
         else if(op < 12)
         {
            const double* v = V[op - 6];
            e[i % 2].add(Vertex2(v[0], v[1])), x[i % 2].add(v[0], v[1]);
            h += mc::fmt("%d+(%g,%g) ", i % 2, v[0], v[1]);
         }
         else if(op == 12)e[0].add(e[1]), x[0].add(x[1]), h += "0+1 ";
         else if(op == 13)e[1].add(e[0]), x[1].add(x[0]), h += "1+0 ";
         else
         {
            Extents f = e[0];
            f.add(e[0]); // adding itself changes nothing
            agree(c, x[0], f, h + "copied");
            e[1] = e[0], x[1] = x[0], h += "1=0 ";
         }
         c.trans();
         agree(c, x[0], e[0], h);
         agree(c, x[1], e[1], h + "(second)");
      }
   }

   // ---- points and sizes
   void pointsAndSizes(mc::Ctx& c)
   {
      static const double V[] = {0, 1, -2, 0.5, 1e6, -0.0009765625, 1e-9};
      double a[2], b[2];
      for(double& v : a)v = V[c.choose(7)];
      for(double& v : b)v = V[c.choose(7)];
      Point p(a[0], a[1]), q(b[0], b[1]);
      std::string t = mc::fmt("(%g,%g) (%g,%g)", a[0], a[1], b[0], b[1]);
      c.trans();
      EXPECT(c, at(Point(), 0, 0) && at(p, a[0], a[1]) && at(Point(Vertex2(a[0], a[1])), a[0], a[1]), "%s: constructors", t.c_str());
      EXPECT(c, p.toVertex2().x == a[0] && p.toVertex2().y == a[1], "%s: toVertex2", t.c_str());
      EXPECT(c, at(p + q, a[0] + b[0], a[1] + b[1]), "%s: sum", t.c_str());
      EXPECT(c, at(p - q, a[0] - b[0], a[1] - b[1]), "%s: difference", t.c_str());
      EXPECT(c, at(b[0] * p, a[0] * b[0], a[1] * b[0]) && at(p * b[0], a[0] * b[0], a[1] * b[0]), "%s: product", t.c_str());
      EXPECT(c, at(p.cWiseMin(q), std::min(a[0], b[0]), std::min(a[1], b[1])), "%s: cWiseMin", t.c_str());
      EXPECT(c, at(p.cWiseMax(q), std::max(a[0], b[0]), std::max(a[1], b[1])), "%s: cWiseMax", t.c_str());
      EXPECT(c, at(p, a[0], a[1]) && at(q, b[0], b[1]), "%s: an operand changes", t.c_str());
      Point r = p;
      EXPECT(c, &(r += q) == &r && at(r, a[0] + b[0], a[1] + b[1]), "%s: +=", t.c_str());
      r = p;
      EXPECT(c, &(r -= q) == &r && at(r, a[0] - b[0], a[1] - b[1]), "%s: -=", t.c_str());
      r.setX(b[1]), r.setY(b[0]);
      EXPECT(c, at(r, b[1], b[0]), "%s: setX, setY", t.c_str());
      r.rX() = a[1], r.rY() = a[0];
      EXPECT(c, at(r, a[1], a[0]), "%s: rX, rY", t.c_str());

      Size s(a[0], a[1]), u(b[0], b[1]);
      auto is = [](const Size & z, double w, double h)
      {
         return z.width() == w && z.height() == h;
      };
      EXPECT(c, is(Size(), 0, 0) && is(s, a[0], a[1]) && is(Size(p), a[0], a[1]), "%s: size constructors", t.c_str());
      EXPECT(c, is(s - u, a[0] - b[0], a[1] - b[1]), "%s: size difference", t.c_str());
      EXPECT(c, is(b[0] * s, a[0] * b[0], a[1] * b[0]), "%s: size product", t.c_str());
      EXPECT(c, is(s.cWiseMin(u), std::min(a[0], b[0]), std::min(a[1], b[1])), "%s: size cWiseMin", t.c_str());
      EXPECT(c, is(s.cWiseMax(u), std::max(a[0], b[0]), std::max(a[1], b[1])), "%s: size cWiseMax", t.c_str());
      // equality is up to a tolerance: nothing in between is demanded
      auto near = [](double x, double y)
      {
         return x == y || std::abs(x - y) <= 2e-9;
      };
      auto far = [](double x, double y)
      {
         return std::abs(x - y) > 1e-4;
      };
      if((a[0] == b[0] && a[1] == b[1]) || far(a[0], b[0]) || far(a[1], b[1]))
         EXPECT(c, (s == u) == (near(a[0], b[0]) && near(a[1], b[1])) && (s != u) != (s == u), "%s: equality %d %d", t.c_str(), (int)(s == u), (int)(s != u));
      EXPECT(c, (s == u) == (u == s) && (s != u) == !(s == u), "%s: equality and its opposite", t.c_str());
      Size z = s;
      z.setWidth(b[1]), z.setHeight(b[0]);
      EXPECT(c, is(z, b[1], b[0]), "%s: setWidth, setHeight", t.c_str());
      z.rWidth() = a[1], z.rHeight() = a[0];
      EXPECT(c, is(z, a[1], a[0]), "%s: rWidth, rHeight", t.c_str());
      EXPECT(c, is(s, a[0], a[1]) && is(u, b[0], b[1]), "%s: a size operand changes", t.c_str());
   }
}
void defineScenarios()
{
   useLibrary();
   mc::scenario("pairs", {1, "all pairs of rectangles of a 3x3 (thorough 4x4) grid of corners at 5 places and scales, every half grid point"}, pairs);
   mc::scenario("histories", {2, "all sequences of 3 (thorough 4) of 25 changes with 3 values or 4 other rectangles from 5 starts"}, histories);
   mc::scenario("extents", {1, "all sequences of 5 (thorough 6) points in 2D or 3D, additions of extents and copies on two extents"}, extents);
   mc::scenario("pointsAndSizes", {1, "all pairs over 7 values per coordinate"}, pointsAndSizes);
}
