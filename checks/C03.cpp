// ByteArray: always exactly its bytes, always terminated, copies are independent.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "C03";

namespace
{
   using Bytes = std::vector<uint8>;
   struct World
   {
      ByteArray a;
      Bytes m;
      bool null = false;
   };
   void observe(mc::Ctx& c, ByteArray& a, const Bytes& m, bool null, const char* what = "content")
   {
      c.trans();
      EXPECT(c, a.size() == (int64)m.size(), "%s: size %lld, expected %zu", what, (long long)a.size(), m.size());
      EXPECT(c, a.isEmpty() == m.empty(), "%s: isEmpty()", what);
      EXPECT(c, a.isNull() == null, "%s: isNull() is %d", what, a.isNull());
      const ByteArray& k = a;
      for(size_t i = 0; i < m.size(); i++)
      {
         EXPECT(c, a.get(i) == m[i] && k[i] == m[i] && (uint8)a.constData()[i] == m[i] && (uint8)a.data()[i] == m[i],
                "%s: byte %zu is %02x, expected %02x", what, i, a.get(i), m[i]);
      }
      if(!null)EXPECT(c, a.constData()[m.size()] == 0, "%s: not terminated", what);
   }
   uint8 gen(int i)
   {
      return (uint8)(0x80 ^ (i * 37 + 1));
   }
   void step(mc::Ctx& c, World& w)
   {
      int64 n = w.m.size();
      int op = c.choose(12);
      switch(op)
      {
         case 0: case 1:
         {
            static const int64 sizes[] = {0, 1, 2, 3, 5, 8, 9, 16};
            int64 s = op == 0 ? sizes[c.choose(8)] : (c.choose(2) ? n + 1 : (n > 0 ? n - 1 : 0));
            c.step("resize(%lld)", (long long)s);
            w.a.resize(s);
            w.m.resize(s, 0);
            w.null = false;
            break;
         }
         case 2:
            if(!n)c.discard();
            c.step("set(0), [n-1]");
            w.a.set(0, 0xfe);
            w.m[0] = 0xfe;
            w.a[n - 1] = 0x7f;
            w.m[n - 1] = 0x7f;
            break;
         case 3:
            c.step("fill");
            w.a.fill(0x55);
            std::fill(w.m.begin(), w.m.end(), 0x55);
            break;
         case 4:
         {
            Bytes sm = {10, 20, 30, 40};
            ByteArray src = {10, 20, 30, 40};
            int64 t = c.choose(4), s = c.choose(4), l = c.choose(6);
            if(t > n)c.discard();
            c.step("replace(%lld, %lld, 4 bytes, %lld)", (long long)t, (long long)s, (long long)l);
            w.a.replace(t, s, src, l);
            for(int64 i = 0; i < l && t + i < n && s + i < 4; i++)w.m[t + i] = sm[s + i];
            observe(c, src, sm, false, "source of replace()");
            break;
         }
         case 5:
            c.step("replace(0 by 9; 55 by 0)");
            w.a.replace(0, 9);
            w.a.replace(0x55, 0);
            for(auto& b : w.m)if(b == 0)b = 9;
            for(auto& b : w.m)if(b == 0x55)b = 0;
            break;
         case 6:
            c.step("sort");
            w.a.sort();
            std::sort(w.m.begin(), w.m.end());
            break;
         case 7:
         {
            c.step("copy and change the copy");
            ByteArray k(w.a);
            observe(c, k, w.m, w.null, "copy");
            EXPECT(c, k == w.a, "copy is not equal");
            k.resize(n + 3);
            k.fill(1);
            observe(c, w.a, w.m, w.null, "the copied array");
            EXPECT(c, !(k == w.a), "arrays of different size are equal");
            if(n)
            {
               ByteArray e(w.a);
               e[n - 1] = (uint8)~e[n - 1];
               EXPECT(c, !(e == w.a), "arrays with different last byte are equal");
            }
            break;
         }
         case 8:
         {
            c.step("assign to another array and back; assign itself");
            ByteArray k = {1, 2, 3};
            k = w.a;
            observe(c, k, w.m, w.null, "assigned");
            w.a = w.a;
            w.a = k;
            break;
         }
         case 9:
            c.step("assign null array");
            w.a = ByteArray();
            w.m.clear();
            w.null = true;
            break;
         case 10:
            c.step("assign {3 bytes}");
            w.a = {0, 255, 128};
            w.m = {0, 255, 128};
            w.null = false;
            break;
         case 11:
         {
            c.step("assign from C string");
            w.a = ByteArray((const int8*)"text");
            w.m = {'t', 'e', 'x', 't'};
            w.null = false;
            break;
         }
      }
      c.trans();
   }
}

void defineScenarios()
{
   using namespace mc;
   scenario("operation sequences", {3, "start: null, empty, 1, 2, 5, 8 bytes; 12 operations (resize to 10 sizes, replace with every offset/length, ...); depth 3 / 4"}, [](Ctx & c)
   {
      static const int starts[] = {-1, 0, 1, 2, 5, 8};
      World w;
      int n = starts[c.choose(6)];
      w.null = n < 0;
      if(n >= 0)
      {
         std::vector<uint8> b;
         for(int i = 0; i < n; i++)b.push_back(gen(i));
         w.a = ByteArray(b.data() ? b.data() : (const uint8*)"", n);
         w.m = b;
      }
      observe(c, w.a, w.m, w.null, "new array");
      int depth = tier(3, 4);
      for(int d = 0; d < depth; d++)
      {
         step(c, w);
         observe(c, w.a, w.m, w.null);
         c.state(PB(w.m.data(), w.m.size()) + (w.null ? "n" : ""));
      }
   });
   scenario("constructors and resizing between all sizes", {2, "every pair of sizes up to 66 / 130, then a third"}, [](Ctx & c)
   {
      int n = c.choose(tier(66, 130)), k = c.choose(tier(66, 130));
      Bytes m(n), z(n, 7);
      for(int i = 0; i < n; i++)m[i] = gen(i);
      ByteArray a((const uint8*)m.data(), n), b((int64)n, (uint8)7);
      if(n == 0)a = ByteArray((const uint8*)"", 0);
      observe(c, a, m, false);
      observe(c, b, z, false);
      a.resize(k);
      m.resize(k, 0);
      observe(c, a, m, false, "resized");
      for(int t : {0, 1, 33, 65})
      {
         ByteArray x(a);
         Bytes y(m);
         x.resize(t);
         y.resize(t, 0);
         observe(c, x, y, false, "resized twice");
         x.resize(n);
         y.resize(n, 0);
         observe(c, x, y, false, "resized three times");
         x = b;
         observe(c, x, z, false, "assigned");
      }
      c.state(fmt("%d %d", n, k));
   });
   scenario("sorting and comparing", {3, "every array over {00,01,7f,80,ff} up to length 5 / 7"}, [](Ctx & c)
   {
      static const uint8 al[] = {0x80, 0, 0xff, 0x7f, 1};
      int n = c.choose(tier(6, 8));
      Bytes m;
      for(int i = 0; i < n; i++)m.push_back(al[c.choose(5)]);
      ByteArray a((int64)n, 0);
      for(int i = 0; i < n; i++)a.set(i, m[i]);
      ByteArray b(a);
      a.sort();
      Bytes s = m;
      std::sort(s.begin(), s.end());
      observe(c, a, s, false, "sorted");
      EXPECT(c, (a == b) == (s == m), "operator==");
      c.state(PB(m.data(), m.size()));
   });
   scenario("sorting long arrays", {2, "63 lengths up to 1025, 14 orders"}, [](Ctx & c)
   {
      const auto& len = lengths();
      int n = len[c.choose((int)len.size())], kind = c.choose(kOrders);
      Bytes m;
      ByteArray a((int64)n, 0);
      for(int i = 0; i < n; i++)
      {
         m.push_back((uint8)order(kind, i, n));
         a.set(i, m[i]);
      }
      ByteArray b(a);
      EXPECT(c, a == b, "a copy differs");
      if(n)
      {
         b.set(n - 1, (uint8)(m[n - 1] + 1));
         EXPECT(c, !(a == b), "arrays with different last bytes are equal");
      }
      Bytes s = m;
      std::sort(s.begin(), s.end());
      a.sort();
      observe(c, a, s, false, "sorted");
      c.state(n * 16 + kind);
   });
   scenario("an array as its own source", {2, "arrays of up to 9 / 14 bytes, every offset of target and source, every length"}, [](Ctx & c)
   {
      int n = c.choose(tier(10, 15));
      for(int t = 0; t <= n; t++)for(int s = 0; s <= n; s++)for(int l = 0; l <= n + 1; l++)
            {
               Bytes m(n);
               for(int i = 0; i < n; i++)m[i] = gen(i);
               ByteArray a((const uint8*)m.data(), n);
               Bytes w = m;
               for(int i = 0; i < l && t + i < n && s + i < n; i++)w[t + i] = m[s + i];
               a.replace(t, s, a, l);
               observe(c, a, w, n == 0, "a part of itself");
            }
      c.state(n);
   });
   scenario("large arrays", {1, "64 sizes up to 100000: constructed in every way, filled, resized to 6 others and back, copied, assigned, replaced, compared"}, [](Ctx & c)
   {
      int n = farLengths()[c.choose((int)farLengths().size())];
      Bytes m(n);
      for(int i = 0; i < n; i++)m[i] = (uint8)(gen(i) | 1); // no zero, so that the length can be found
      std::string text((const char*)m.data(), n);
      ByteArray a((const uint8*)text.data(), n), z((const int8*)text.c_str(), -1), f((int64)n, (uint8)0x33);
      observe(c, a, m, false, "from bytes");
      observe(c, z, m, false, "from a text");
      observe(c, f, Bytes(n, 0x33), false, "filled");
      EXPECT(c, a == z && (n == 0 || !(a == f)), "equality of %d bytes", n);
      for(int k : {0, 1, n / 2, n + 1, n + 16, 2 * n})
      {
         ByteArray b(a), x(f);
         Bytes y = m;
         b.resize(k);
         y.resize(k, 0);
         observe(c, b, y, false, "resized");
         x = b;
         observe(c, x, y, false, "assigned");
         b.resize(n);
         y.resize(n, 0);
         observe(c, b, y, false, "resized back");
         b.replace(n / 3, 0, a, n);
         for(int i = n / 3; i < n; i++)y[i] = m[i - n / 3];
         observe(c, b, y, false, "replaced");
         b.replace(m.empty() ? 0 : m[0], 0);
         for(auto& q : y)if(!m.empty() && q == m[0])q = 0;
         observe(c, b, y, false, "a value replaced");
      }
      if(n)
      {
         ByteArray b(a);
         b[n - 1] = 0;
         EXPECT(c, !(a == b), "arrays of %d bytes which differ in the last", n);
      }
      observe(c, a, m, false, "the source");
      c.state(n);
   });
}
