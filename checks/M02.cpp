// Matrix and Vector against exact integer arithmetic.
// mc: workers 8
#include "lib.hpp"
#include "fastexc.hpp"
#include <cmath>
using namespace jm;
const char* const kProperty = "M02";

namespace
{
   struct NullBuf: public std::streambuf
   {
      int overflow(int c) override
      {
         return c;
      }
   };
   struct M
   {
      int m = 0, n = 0;
      std::vector<double> v; // row by row
      M(int m_ = 0, int n_ = 0): m(m_), n(n_), v((size_t)m_* n_) {}
      double& at(int r, int c)
      {
         return v[(size_t)r * n + c];
      }
      double at(int r, int c) const
      {
         return v[(size_t)r * n + c];
      }
   };
   Matrix real(const M& a)
   {
      Matrix r(a.m, a.n);
      for(int i = 0; i < a.m; i++)for(int k = 0; k < a.n; k++)r.set(i, k, a.at(i, k));
      return r;
   }
   std::string txt(const M& a)
   {
      std::string s = std::to_string(a.m) + "x" + std::to_string(a.n) + "[";
      char b[32];
      for(int i = 0; i < a.m; i++)
      {
         for(int k = 0; k < a.n; k++)
         {
            snprintf(b, sizeof b, "%s%g", k ? " " : "", a.at(i, k));
            s += b;
         }
         if(i + 1 < a.m)s += "; ";
      }
      return s + "]";
   }
   bool same(const M& a, const Matrix& b, double tol = 0)
   {
      if(a.m != b.m || a.n != b.n)return false;
      for(int i = 0; i < a.m; i++)for(int k = 0; k < a.n; k++)
            if(!(std::abs(a.at(i, k) - b.get(i, k)) <= tol))return false;
      return true;
   }
   std::string txt(const Matrix& b)
   {
      M a((int)b.m, (int)b.n);
      for(int i = 0; i < a.m; i++)for(int k = 0; k < a.n; k++)a.at(i, k) = b.get(i, k);
      return txt(a);
   }
   // all entries different, nothing symmetric
   M coded(int m, int n, int seed)
   {
      static const int P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97};
      M a(m, n);
      for(int i = 0; i < m * n; i++)a.v[i] = P[(i * 7 + seed * 5) % 25] * ((i * i + seed) % 3 ? 1 : -1);
      return a;
   }
   void binary(mc::Ctx& c, const M& a, const M& b)
   {
      c.trans();
      Matrix A = real(a), B = real(b), R;
      M sum(a.m, a.n), dif(a.m, a.n), pro(a.m, b.n);
      bool add = a.m == b.m && a.n == b.n, mul = a.n == b.m;
      if(add)for(size_t i = 0; i < a.v.size(); i++)sum.v[i] = a.v[i] + b.v[i], dif.v[i] = a.v[i] - b.v[i];
      if(mul)for(int i = 0; i < a.m; i++)for(int k = 0; k < b.n; k++)for(int j = 0; j < a.n; j++)pro.at(i, k) += a.at(i, j) * b.at(j, k);
      bool t;
      t = threw([&] { R = A + B; });
      EXPECT(c, t == !add, "%s + %s %s", txt(a).c_str(), txt(b).c_str(), t ? "is refused" : "is accepted");
      if(add)EXPECT(c, same(sum, R), "%s + %s = %s", txt(a).c_str(), txt(b).c_str(), txt(R).c_str());
      t = threw([&] { R = A - B; });
      EXPECT(c, t == !add, "%s - %s %s", txt(a).c_str(), txt(b).c_str(), t ? "is refused" : "is accepted");
      if(add)EXPECT(c, same(dif, R), "%s - %s = %s", txt(a).c_str(), txt(b).c_str(), txt(R).c_str());
      t = threw([&] { R = A * B; });
      EXPECT(c, t == !mul, "%s * %s %s", txt(a).c_str(), txt(b).c_str(), t ? "is refused" : "is accepted");
      if(mul)EXPECT(c, same(pro, R), "%s * %s = %s", txt(a).c_str(), txt(b).c_str(), txt(R).c_str());
      if(b.n == 1)
      {
         jm::Vector x(b.m), y;
         for(int i = 0; i < b.m; i++)x.data[i] = b.v[i];
         t = threw([&] { y = A * x; });
         EXPECT(c, t == !mul, "%s * vector of %d %s", txt(a).c_str(), b.m, t ? "is refused" : "is accepted");
         if(mul)for(int i = 0; i < a.m; i++)EXPECT(c, y.data[i] == pro.v[i], "%s * vector %s: element %d is %g", txt(a).c_str(), txt(b).c_str(), i, (double)y.data[i]);
         if(b.m == 3)
         {
            Vertex3 p(b.v[0], b.v[1], b.v[2]), q;
            t = threw([&] { q = A * p; });
            EXPECT(c, t == (a.m != 3 || a.n != 3), "%s * point", txt(a).c_str());
            if(!t)EXPECT(c, q.x == pro.v[0] && q.y == pro.v[1] && q.z == pro.v[2], "%s * point %s", txt(a).c_str(), txt(b).c_str());
         }
      }
      EXPECT(c, same(a, A) && same(b, B), "an operand changes: %s, %s", txt(a).c_str(), txt(b).c_str());
   }
   long long det(const M& a)
   {
      if(a.m == 1)return (long long)a.v[0];
      long long s = 0;
      for(int k = 0; k < a.n; k++)
      {
         if(a.at(0, k) == 0)continue;
         M b(a.m - 1, a.n - 1);
         for(int i = 1; i < a.m; i++)for(int j = 0, t = 0; j < a.n; j++)if(j != k)b.at(i - 1, t++) = a.at(i, j);
         s += (k % 2 ? -1 : 1) * (long long)a.at(0, k) * det(b);
      }
      return s;
   }
   void square(mc::Ctx& c, const M& a)
   {
      c.trans();
      Matrix A = real(a);
      double d = 1e99;
      long long want = det(a);
      EXPECT(c, A.det(d) == Status::eOK && d == (double)want, "the determinant of %s is %g, not %lld", txt(a).c_str(), d, want);
      EXPECT(c, same(a, A), "det() changes %s", txt(a).c_str());
      Status s = A.inverse();
      if(want == 0)
      {
         EXPECT(c, s == Status::eError, "the singular matrix %s is inverted to %s", txt(a).c_str(), txt(A).c_str());
         EXPECT(c, same(a, A), "the failed inversion changes %s to %s", txt(a).c_str(), txt(A).c_str());
         return;
      }
      EXPECT(c, s == Status::eOK && A.m == a.m && A.n == a.n, "inverse of %s", txt(a).c_str());
      for(int i = 0; i < a.m; i++)for(int k = 0; k < a.n; k++)
         {
            double x = 0, y = 0;
            for(int j = 0; j < a.m; j++)
            {
               x += a.at(i, j) * A.get(j, k);
               y += A.get(i, j) * a.at(j, k);
            }
            EXPECT(c, std::abs(x - (i == k)) < 1e-9 && std::abs(y - (i == k)) < 1e-9, "%s: the inverse is not %s", txt(a).c_str(), txt(A).c_str());
         }
   }
   M entries(mc::Ctx& c, int m, int n, const int* alphabet, int letters)
   {
      M a(m, n);
      for(double& x : a.v)x = alphabet[c.choose(letters)];
      return a;
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   onWorkerStart([]
   {
      static NullBuf nothing;
      std::cout.rdbuf(&nothing);
      System::init("");
   });
   scenario("sums and products of all shapes", {2, "all pairs of shapes 1x1 to 5x5 (including shapes that do not fit), two sets of distinct entries"}, [](Ctx & c)
   {
      int m = 1 + c.choose(5), n = 1 + c.choose(5);
      for(int p = 1; p <= 5; p++)for(int q = 1; q <= 5; q++)for(int s = 0; s < 6; s++)binary(c, coded(m, n, s), coded(p, q, s + 3));
      M a = coded(m, n, 1);
      for(double d : {0.0, 1.0, -2.0, 0.5})
      {
         Matrix A = real(a), L = d * A, R = A * d;
         M w = a, q = a;
         for(double& x : w.v)x *= d;
         EXPECT(c, same(w, L) && same(w, R) && same(a, A), "%s times %g", txt(a).c_str(), d);
         if(d == 0)continue;
         for(double& x : q.v)x /= d;
         EXPECT(c, same(q, A / d) && same(a, A), "%s / %g", txt(a).c_str(), d);
      }
      c.state(txt(a));
   });
   scenario("sums and products of all entries", {4, "all pairs of 2x2 matrices over {-1,0,2}, all 1x2, 2x1, 2x3 with 3x1 over {-1,0,2}"}, [](Ctx & c)
   {
      static const int A[] = {-1, 0, 2};
      static const int S[][4] = {{2, 2, 2, 2}, {1, 2, 2, 2}, {2, 1, 1, 2}, {2, 3, 3, 1}, {1, 3, 3, 2}};
      auto& s = S[c.choose(5)];
      M a = entries(c, s[0], s[1], A, 3), b = entries(c, s[2], s[3], A, 3);
      binary(c, a, b);
      c.state(txt(a) + txt(b));
   });
   scenario("determinant and inverse", {4, "all matrices 1x1, 2x2 over -3..3, 3x3 over {-1,0,1,2}"}, [](Ctx & c)
   {
      static const int A[] = {0, 1, -1, 2, -2, 3, -3};
      int n = 1 + c.choose(3);
      M a = n < 3 ? entries(c, n, n, A, 7) : entries(c, 3, 3, A, tier(3, 4));
      square(c, a);
      c.state(txt(a));
   });
   scenario("determinant and inverse 4x4", {2, "all 4x4 matrices made of 12 / 20 rows; all over {0,1}"}, [](Ctx & c)
   {
      static const int R[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {2, 3, 5, 7}, {11, -13, 17, 19}, {-1, 2, 0, 3}, {5, 0, -7, 1}, {0, 4, 1, -2}, {3, 1, 2, 2}, {0, 0, 0, 0}, {1, 1, 1, 1},
         {-3, 0, 0, 2}, {0, 9, 1, 0}, {7, 7, -1, 0}, {1, 2, 3, 4}, {-4, 3, -2, 1}, {0, -1, 0, 6}, {8, 0, 1, 3}, {2, -5, 4, 0}
      };
      M a(4, 4);
      if(c.choose(2) == 0)for(int i = 0; i < 4; i++)
         {
            const int* r = R[c.choose(tier(12, 20))];
            for(int k = 0; k < 4; k++)a.at(i, k) = r[k];
         }
      else for(int i = 0; i < 4; i++)
         {
            int bits = c.choose(16);
            for(int k = 0; k < 4; k++)a.at(i, k) = bits >> k & 1;
         }
      square(c, a);
      c.state(txt(a));
   });
   scenario("shapes without determinant", {1, "all shapes 0x0 to 6x6 that are not square or larger than 4x4"}, [](Ctx & c)
   {
      int m = c.choose(7), n = c.choose(7);
      M a = coded(m, n, 2);
      Matrix A = real(a);
      c.trans();
      if(m != n || m > 4 || m == 0)
      {
         double d = 5;
         EXPECT(c, A.det(d) != Status::eOK && A.inverse() != Status::eOK, "det/inverse of a %dx%d matrix", m, n);
         EXPECT(c, same(a, A), "a %dx%d matrix changes", m, n);
      }
      if(m != n || m > 3)EXPECT(c, threw([&] { A.eigen(); }), "eigenvalues of a %dx%d matrix", m, n);
      c.state(txt(a));
   });
   scenario("eigenvalues", {3, "all symmetric 3x3 matrices over -2..2, all 2x2 over -3..3 that have real eigenvalues, 1x1"}, [](Ctx & c)
   {
      static const int A[] = {-2, -1, 0, 1, 2, 3, -3};
      int n = 1 + c.choose(3);
      M a(n, n);
      if(n == 3)for(int i = 0; i < 3; i++)for(int k = i; k < 3; k++)a.at(i, k) = a.at(k, i) = A[c.choose(5)];
      else a = entries(c, n, n, A, 7);
      double t = 0, d = (double)det(a), p = 0;
      for(int i = 0; i < n; i++)t += a.at(i, i);
      if(n == 2 && t * t < 4 * d)c.discard();
      if(n == 3)for(int i = 0; i < 3; i++)for(int k = 0; k < i; k++)p += a.at(i, i) * a.at(k, k) - a.at(i, k) * a.at(k, i);
      Matrix M_ = real(a);
      c.trans();
      jm::Vector v = M_.eigen();
      EXPECT(c, v.m == n, "%s has %lld eigenvalues", txt(a).c_str(), (long long)v.m);
      double x = v.data[0], y = n > 1 ? (double)v.data[1] : 0, z = n > 2 ? (double)v.data[2] : 0;
      // the coefficients of the characteristic polynomial determine the set of the eigenvalues
      bool ok = std::abs(x + y + z - t) < 1e-6;
      if(n == 1)ok = x == a.v[0];
      if(n == 2)ok = ok && std::abs(x * y - d) < 1e-6;
      if(n == 3)ok = ok && std::abs(x * y * z - d) < 1e-5 && std::abs(x * y + y * z + z * x - p) < 1e-5;
      EXPECT(c, ok, "%s: eigenvalues %.9g %.9g %.9g", txt(a).c_str(), x, y, z);
      EXPECT(c, same(a, M_), "eigen() changes %s", txt(a).c_str());
      c.state(txt(a));
   });
   scenario("repeated eigenvalues", {3, "s I + t v v^T for all vectors over -3..3 / -7..7, s in 5, t in 6 numbers: symmetric 3x3 matrices of which two eigenvalues agree"}, [](Ctx & c)
   {
      static const double S_[] = {0, 1, -2, 7, 0.1}, T_[] = {1, -1, 3, -5, 0.3, 1000};
      int range = tier(3, 7);
      double v[3];
      for(double& x : v)x = c.choose(2 * range + 1) - range;
      double len = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
      if(len == 0)c.discard();
      for(double s : S_)for(double t : T_)
         {
            Matrix A(3, 3);
            for(int i = 0; i < 3; i++)for(int k = 0; k < 3; k++)A.set(i, k, t * v[i] * v[k] + (i == k ? s : 0));
            c.trans();
            jm::Vector e = A.eigen();
            double w[3] = {s, s, s + t * len}, g[3] = {e.data[0], e.data[1], e.data[2]};
            std::sort(w, w + 3);
            bool ok = g[0] == g[0] && g[1] == g[1] && g[2] == g[2];
            if(ok)std::sort(g, g + 3);
            // (two of them differ from their common value by the square root of the rounding error)
            for(int i = 0; i < 3; i++)ok = ok && std::abs(g[i] - w[i]) <= 1e-6 * (std::abs(w[0]) + std::abs(w[2]));
            EXPECT(c, ok, "%g I + %g (%g %g %g)^2: eigenvalues %.12g %.12g %.12g", s, t, v[0], v[1], v[2], g[0], g[1], g[2]);
         }
      c.state(fmt("%g %g %g", v[0], v[1], v[2]));
   });
   scenario("histories", {3, "all sequences of 4 / 5 operations of 16 on two matrices of 9 shapes: cells, zeros, transpose, insert, diagonal, assignment, copies, identity"}, [](Ctx & c)
   {
      static const int S[][2] = {{2, 3}, {0, 0}, {1, 1}, {3, 2}, {4, 4}, {1, 4}, {3, 3}, {2, 2}, {5, 1}};
      auto& s = S[c.choose(9)];
      leakFree(c, [&]
      {
         M a = coded(s[0], s[1], 1), b = coded(2, 3, 4);
         Matrix A = real(a), B = real(b);
         int depth = tier(4, 5);
         for(int step = 0; step < depth; step++)
         {
            int op = c.choose(16);
            c.trans();
            int r = a.m > 1, k = a.n > 1 ? a.n - 1 : 0;
            switch(op)
            {
               case 0:
                  if(a.v.empty())break;
                  a.at(r, k) = 77;
                  A.set(r, k, 77);
                  break;
               case 1:
                  if(a.v.empty())break;
                  a.at(0, k) += 3;
                  A.add(0, k, 3);
                  break;
               case 2:
                  a.v.assign(a.v.size(), 0);
                  A.zeros();
                  break;
               case 3:
               {
                  M t(a.n, a.m);
                  for(int i = 0; i < a.m; i++)for(int j = 0; j < a.n; j++)t.at(j, i) = a.at(i, j);
                  a = t;
                  A.transpose();
                  break;
               }
               case 4:
                  for(int i = 0; i < std::min(a.m, b.m); i++)for(int j = 0; j < std::min(a.n, b.n); j++)a.at(i, j) = b.at(i, j);
                  A.insert(B);
                  break;
               case 5:
               case 6:
               {
                  int x = op == 5 ? 1 : 0, y = op == 5 ? 1 : 2;
                  for(int i = x; i < std::min(a.m, b.m + x); i++)for(int j = y; j < std::min(a.n, b.n + y); j++)a.at(i, j) = b.at(i - x, j - y);
                  A.insert(B, x, y);
                  break;
               }
               case 7:
                  for(int i = 0; i < std::min(a.m, a.n); i++)a.at(i, i) = -4;
                  A.diag(-4);
                  break;
               case 8:
                  a = b;
                  A = B;
                  break;
               case 9:
                  A = *&A;
                  break;
               case 10:
                  std::swap(a, b);
                  {
                     Matrix t = A;
                     A = B;
                     B = t;
                  }
                  break;
               case 11:
                  a = M(4, 4);
                  for(int i = 0; i < 4; i++)a.at(i, i) = 1;
                  A.initIdentity();
                  break;
               case 12:
                  a = M(1, 1);
                  a.v[0] = 9;
                  A = Matrix(9.0);
                  break;
               case 13:
                  b = a;
                  B = Matrix(&A);
                  break;
               case 14:
               {
                  // a copy is independent
                  Matrix t(A);
                  t.zeros();
                  t.diag(5);
                  break;
               }
               case 15:
                  a = M();
                  A = Matrix();
                  break;
            }
            EXPECT(c, same(a, A), "operation %d gives %s, not %s", op, txt(A).c_str(), txt(a).c_str());
            EXPECT(c, same(b, B), "operation %d changes the other matrix to %s from %s", op, txt(B).c_str(), txt(b).c_str());
            double tr = 0, n1 = 0, ni = 0;
            uint32 nz = 0;
            for(int i = 0; i < std::min(a.m, a.n); i++)tr += a.at(i, i);
            for(int j = 0; j < a.n; j++)
            {
               double x = 0;
               for(int i = 0; i < a.m; i++)x += std::abs(a.at(i, j)), nz += a.at(i, j) != 0;
               n1 = std::max(n1, x);
            }
            for(int i = 0; i < a.m; i++)
            {
               double x = 0;
               for(int j = 0; j < a.n; j++)x += std::abs(a.at(i, j));
               ni = std::max(ni, x);
            }
            EXPECT(c, A.trace() == tr && A.nonZeroElementCount() == nz && A.norm(MatrixNorm::kNorm1) == n1 && A.norm(MatrixNorm::kNormInf) == ni, "trace %g, %u elements, norms %g and %g of %s",
                   A.trace(), A.nonZeroElementCount(), A.norm(MatrixNorm::kNorm1), A.norm(MatrixNorm::kNormInf), txt(a).c_str());
            for(int i = 0; i < a.m; i++)for(int j = 0; j < a.n; j++)EXPECT(c, A.ref()[i + j * a.m] == a.at(i, j), "ref() of %s is not column by column", txt(a).c_str());
            c.state(txt(a) + txt(b));
         }
      });
   });
   scenario("three columns or rows", {1, "construction from three points, by rows and by columns"}, [](Ctx & c)
   {
      int by = c.choose(2), s = c.choose(4);
      M a = coded(3, 3, s);
      Vertex3 p(a.v[0], a.v[1], a.v[2]), q(a.v[3], a.v[4], a.v[5]), r(a.v[6], a.v[7], a.v[8]);
      Matrix A(p, q, r, by == 1);
      for(int i = 0; i < 3; i++)for(int k = 0; k < 3; k++)
         {
            c.trans();
            EXPECT(c, (by ? A.get(i, k) : A.get(k, i)) == a.at(i, k), "by %s: %s", by ? "rows" : "columns", txt(A).c_str());
         }
      c.state(std::to_string(by * 4 + s));
   });
   scenario("vectors", {2, "all pairs of vectors up to length 3 over -2..2: sum, difference, multiple, dot product, length, normalising, copies"}, [](Ctx & c)
   {
      int m = c.choose(4), n = c.choose(4);
      std::vector<int> a, b;
      for(int i = 0; i < m; i++)a.push_back(c.choose(5) - 2);
      for(int i = 0; i < n; i++)b.push_back(c.choose(5) - 2);
      c.trans();
      auto body = [&]
      {
         jm::Vector x(m), y(n), z(2);
         for(int i = 0; i < m; i++)
         {
            EXPECT(c, x.data[i] == 0, "a new vector is not zero");
            x.data[i] = a[i];
         }
         for(int i = 0; i < n; i++)y.data[i] = b[i];
         bool t = threw([&] { z = x + y; });
         EXPECT(c, t == (m != n), "the sum of %d and %d elements", m, n);
         if(!t)for(int i = 0; i < m; i++)EXPECT(c, z.data[i] == a[i] + b[i], "sum: element %d is %g", i, (double)z.data[i]);
         t = threw([&] { z = x - y; });
         EXPECT(c, t == (m != n), "the difference of %d and %d elements", m, n);
         if(!t)for(int i = 0; i < m; i++)EXPECT(c, z.data[i] == a[i] - b[i], "difference: element %d is %g", i, (double)z.data[i]);
         double dot = 1e99, want = 0, len = 0;
         t = threw([&] { dot = x.dotProduct(y); });
         EXPECT(c, t == (m != n), "the dot product of %d and %d elements", m, n);
         for(int i = 0; i < m; i++)
         {
            len += a[i] * a[i];
            if(i < n)want += a[i] * b[i];
         }
         if(!t)EXPECT(c, dot == want, "the dot product is %g, not %g", dot, want);
         EXPECT(c, x.abs() == std::sqrt(len), "the length is %g", x.abs());
         z = -3.0 * x;
         EXPECT(c, z.m == m, "multiple");
         for(int i = 0; i < m; i++)EXPECT(c, z.data[i] == -3 * a[i], "multiple: element %d is %g", i, (double)z.data[i]);
         jm::Vector k(x), l;
         l = x;
         l = *&l;
         if(len > 0)
         {
            k.normalize();
            for(int i = 0; i < m; i++)EXPECT(c, std::abs(k.data[i] - a[i] / std::sqrt(len)) < 1e-15, "normalised: element %d is %g", i, (double)k.data[i]);
         }
         l.ones();
         for(int i = 0; i < m; i++)EXPECT(c, l.data[i] == 1 && x.data[i] == a[i], "a copy is not independent");
         l.zeros();
         for(int i = 0; i < m; i++)EXPECT(c, l.data[i] == 0 && x.data[i] == a[i], "zeros()");
         for(int i = 0; i < n; i++)EXPECT(c, y.data[i] == b[i], "an operand changes");
      };
      // the library keeps the text of the last error
      if(m == n)leakFree(c, body);
      else body();
      c.state(std::to_string(m) + "/" + std::to_string(n));
   });
   mc::scenario("large shapes", {1, "all pairs of shapes with 1, 2, 6..12, 16, 17, 33 rows and columns that fit or nearly fit; transposing, copying and inserting them"}, [](mc::Ctx & c)
   {
      static const int N[] = {1, 2, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33};
      int m = N[c.choose(12)], n = N[c.choose(12)], k = N[c.choose(12)];
      M a = coded(m, n, 1), b = coded(n, k, 2), d = coded(m, n, 3);
      binary(c, a, b);
      binary(c, a, d);
      if(m != n)binary(c, a, coded(m, k, 2));
      Matrix A = real(a), T = A, C;
      T.transpose();
      M t(n, m);
      for(int i = 0; i < m; i++)for(int j = 0; j < n; j++)t.at(j, i) = a.at(i, j);
      EXPECT(c, same(t, T), "%s transposed is %s", txt(a).c_str(), txt(T).c_str());
      C = A;
      Matrix B(m + 2, n + 3);
      B.zeros();
      M w(m + 2, n + 3);
      B.insert(A, 2, 1);
      for(int i = 0; i < m; i++)for(int j = 0; j < n; j++)w.at(i + 2, j + 1) = a.at(i, j);
      EXPECT(c, same(w, B), "%s inserted into a larger one: %s", txt(a).c_str(), txt(B).c_str());
      T.transpose();
      EXPECT(c, same(a, T) && same(a, C) && same(a, A), "%s transposed twice is %s, a copy is %s", txt(a).c_str(), txt(T).c_str(), txt(C).c_str());
   });
}
