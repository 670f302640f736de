// Array, pointer array, float array, character array and stack: sequences of elements with value
// semantics (arrays), last in - first out (stack).
#include "lib.hpp"
#include "core/Stack.h"
using namespace jm;
const char* const kProperty = "C04";

namespace
{
   using str = std::u16string;
   int gInts[8];

   template<class A, class V> void sameArr(mc::Ctx& c, const A& a, const std::vector<V>& m, const char* what)
   {
      c.trans();
      EXPECT(c, (size_t)a.size() == m.size(), "%s: %lld elements, expected %zu", what, (long long)a.size(), m.size());
      for(size_t i = 0; i < m.size(); i++)EXPECT(c, a.get(i) == m[i] && a[i] == m[i], "%s: element %zu", what, i);
   }
   template<class A, class V> void drive(mc::Ctx& c, const std::vector<V>& vals, int n, int depth)
   {
      A a(n);
      std::vector<V> m(n);
      for(int i = 0; i < n; i++)
      {
         m[i] = vals[(i * 5) % vals.size()];
         a.set(i, m[i]);
      }
      sameArr(c, a, m, "new array");
      for(int d = 0; d < depth; d++)
      {
         int op = c.choose(6);
         int sz = (int)m.size();
         switch(op)
         {
            case 0: case 1:
            {
               if(!sz)c.discard();
               int i = c.choose(3);
               i = i == 0 ? 0 : i == 1 ? sz / 2 : sz - 1;
               c.step("set(%d)", i);
               V v = vals[c.choose(2)];
               if(op)a.set(i, v);
               else a[i] = v;
               m[i] = v;
               break;
            }
            case 2:
            {
               c.step("copy");
               A b(a);
               sameArr(c, b, m, "copy");
               if(sz)b[sz - 1] = vals[2];
               sameArr(c, a, m, "the copied array");
               break;
            }
            case 3:
            {
               c.step("assign from an array of 2; self assignment");
               A b(2);
               b[0] = vals[1];
               b[1] = vals[0];
               a = b;
               b[0] = vals[2];
               a = a;
               m = {vals[1], vals[0]};
               break;
            }
            case 4:
            {
               c.step("assign empty array");
               A b;
               a = b;
               m.clear();
               break;
            }
            case 5:
            {
               c.step("assign to a bigger array and back");
               A b(sz + 3);
               b = a;
               sameArr(c, b, m, "assigned");
               a = b;
               break;
            }
         }
         sameArr(c, a, m, "content");
      }
      c.state(mc::fmt("%zu", m.size()) + (m.empty() ? "" : "x"));
   }
   struct Item: public Comparable<Item>
   {
      int v = 0, id = 0;
      int32 compareTo(const Item& o) const override
      {
         return v < o.v ? -1 : v > o.v;
      }
   };
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   assume("copying a Stack is outside the alphabet (the class has no copy semantics)");
   scenario("arrays of values and of pointers", {3, "0..4, 9 elements; set, operator[], copy, assignment; depth 3 / 4"}, [](Ctx & c)
   {
      static const int sizes[] = {0, 1, 2, 3, 4, 9};
      int kind = c.choose(3), n = sizes[c.choose(6)];
      int depth = tier(3, 4);
      if(kind == 0)drive<Array<int>, int>(c, {3, -1, 77}, n, depth);
      else if(kind == 1)drive<Array<String>, String>(c, {"c", "", "a string that needs its own memory"}, n, depth);
      else drive<Array<int*>, int*>(c, {&gInts[0], &gInts[1], &gInts[2]}, n, depth);
   });
   scenario("bounds", {1, "every index -2..n+1, n = 0..5"}, [](Ctx & c)
   {
      int n = c.choose(6);
      Array<int> a(n);
      Array<int*> p(n);
      for(int i = 0; i < n; i++)a[i] = i, p[i] = &gInts[0];
      for(int i = -2; i <= n + 1; i++)
      {
         bool in = i >= 0 && i < n;
         EXPECT(c, threw([&] {a.get(i);}) == !in, "Array::get(%d) of %d", i, n);
         EXPECT(c, threw([&] {a.set(i, 1);}) == !in, "Array::set(%d) of %d", i, n);
         EXPECT(c, threw([&] {a[i] = 2;}) == !in, "Array[%d] of %d", i, n);
         c.trans(3);
         if(i >= 0)
         {
            EXPECT(c, threw([&] {p.get(i);}) == !in, "pointer Array::get(%d) of %d", i, n);
            EXPECT(c, threw([&] {p.set(i, &gInts[1]);}) == !in, "pointer Array::set(%d) of %d", i, n);
            EXPECT(c, threw([&] {p[i];}) == !in, "pointer Array[%d] of %d", i, n);
            c.trans(3);
         }
      }
      c.state((uint64_t)n + 1);
   });
   scenario("sorting", {3, "every sequence over 3 values up to length 6 / 8: strings, pointers to comparable objects, floats"}, [](Ctx & c)
   {
      int n = c.choose(tier(7, 9));
      std::vector<int> v;
      for(int i = 0; i < n; i++)v.push_back(c.choose(3));
      Array<String> s(n);
      std::vector<Item> items(n);
      Array<Item*> p(n);
      Array<Item> d(n);
      FloatArray f(n);
      static const char* txt[] = {"m", "", "mm"};
      static const float fl[] = {0.5f, -1.0f, 1e9f};
      std::vector<std::u16string> ms;
      std::vector<float> mf;
      std::vector<int> mi;
      for(int i = 0; i < n; i++)
      {
         s[i] = txt[v[i]];
         ms.push_back(::U(txt[v[i]]));
         items[i].v = v[i];
         items[i].id = i;
         p[i] = &items[i];
         d[i] = items[i];
         f[i] = fl[v[i]];
         mf.push_back(fl[v[i]]);
         mi.push_back(v[i]);
      }
      s.sort();
      p.sort();
      d.sort();
      f.Sort();
      std::sort(ms.begin(), ms.end());
      std::sort(mf.begin(), mf.end());
      std::sort(mi.begin(), mi.end());
      std::set<Item*> seen;
      std::set<int> ids;
      EXPECT(c, s.size() == n && (int)p.size() == n && (int)f.Length() == n && d.size() == n, "sorting changes the size");
      for(int i = 0; i < n; i++)
      {
         EXPECT(c, ::U(s[i]) == ms[i], "sorted strings, element %d", i);
         EXPECT(c, p[i]->v == mi[i], "sorted pointers, element %d", i);
         EXPECT(c, d[i].v == mi[i], "sorted values, element %d", i);
         EXPECT(c, f[i] == mf[i] && f.Get(i) == mf[i], "sorted floats, element %d", i);
         seen.insert(p[i]);
         ids.insert(d[i].id);
      }
      EXPECT(c, (int)seen.size() == n && (int)ids.size() == n, "sorting duplicates or loses an element");
      FloatArray g(f);
      EXPECT(c, g.Length() == (uint32)n, "copy of a float array: length");
      for(int i = 0; i < n; i++)EXPECT(c, g[i] == mf[i], "copy of a float array, element %d", i);
      if(n)g.Set(0, 42);
      if(n)EXPECT(c, f[0] == mf[0], "float arrays share their data");
      f = g;
      f = f;
      EXPECT(c, f.Length() == (uint32)n && (n == 0 || f[0] == 42), "assignment of float arrays");
      for(int i = 1; i < n; i++)EXPECT(c, f[i] == mf[i], "assignment of float arrays, element %d", i);
      FloatArray lst = {1, 2, 3};
      EXPECT(c, lst.Length() == 3 && lst[0] == 1 && lst[1] == 2 && lst[2] == 3, "float array from list");
      lst = f;
      EXPECT(c, lst.Length() == (uint32)n, "assignment of float arrays");
      for(int i = 1; i < n; i++)EXPECT(c, lst[i] == mf[i], "assignment to a float array from a list, element %d", i);
      c.trans(8);
      c.state(mc::hash(v.data(), v.size() * sizeof(int)));
   });
   scenario("character arrays", {2, "lengths 0..20 x 0..20: copy, assignment"}, [](Ctx & c)
   {
      int n = c.choose(20), k = c.choose(20);
      CharArray a((int64)n), b((int64)k), e;
      EXPECT(c, a.length == n && b.length == k && e.length == 0, "length");
      for(int i = 0; i < n; i++)a.buffer[i] = Char((uint16)(0x3000 + i));
      for(int i = 0; i < k; i++)b.buffer[i] = Char((uint16)(0x2000 + i));
      auto chk = [&](const CharArray & x, int l, int base, const char* w)
      {
         c.trans();
         EXPECT(c, x.length == l, "%s: length", w);
         for(int i = 0; i < l; i++)EXPECT(c, x.buffer[i].unicode() == base + i, "%s: character %d", w, i);
      };
      CharArray x(a);
      chk(x, n, 0x3000, "copy");
      if(n)x.buffer[0] = Char('!');
      chk(a, n, 0x3000, "copied array");
      x = b;
      chk(x, k, 0x2000, "assigned");
      if(k)x.buffer[0] = Char('!');
      chk(b, k, 0x2000, "assigned array");
      b = a;
      b = b;
      chk(b, n, 0x3000, "assigned itself");
      e = a;
      chk(e, n, 0x3000, "assigned to an empty array");
      CharArray e2;
      e = e2;
      chk(e, 0, 0, "assigned an empty array");
      c.state(fmt("%d/%d", n, k));
   });
   scenario("stack", {4, "push (2 values), pop, reverse, clear, write top; depth 7 / 9"}, [](Ctx & c)
   {
      Stack<String> s;
      std::vector<str> m;
      int depth = tier(8, 9);
      for(int d = 0; d < depth; d++)
      {
         int op = c.choose(6);
         switch(op)
         {
            case 0: case 1:
            {
               str v = ::U(fmt("%c%d", op ? 'b' : 'a', d).c_str());
               c.step("push(%s)", ::P(v).c_str());
               s.push(J(v));
               m.push_back(v);
               break;
            }
            case 2:
               if(m.empty())c.discard();
               c.step("pop()");
               EXPECT(c, ::U(s.pop()) == m.back(), "pop()");
               m.pop_back();
               break;
            case 3:
               c.step("reverse()");
               s.reverse();
               std::reverse(m.begin(), m.end());
               break;
            case 4:
               c.step("clear()");
               s.clear();
               m.clear();
               break;
            case 5:
               if(m.empty())c.discard();
               c.step("top() = x");
               s.top() = "x";
               m.back() = u"x";
               break;
         }
         c.trans();
         EXPECT(c, s.size() == m.size(), "size() is %u, expected %zu", s.size(), m.size());
         EXPECT(c, s.hasElements() == !m.empty(), "hasElements()");
         if(!m.empty())EXPECT(c, ::U(s.top()) == m.back() && s.topRef() == &s.top(), "top()");
         if(m.size() > 1)EXPECT(c, ::U(s.top2()) == m[m.size() - 2], "top2()");
         if(m.size() > 2)EXPECT(c, ::U(s.top3()) == m[m.size() - 3], "top3()");
         std::string k;
         for(auto& v : m)k += ::P(v) + ",";
         c.state(k);
      }
      bool t2 = m.size() < 2, t3 = m.size() < 3;
      static int thrown = 0;
      if((t2 || t3) && thrown++ < 200)EXPECT(c, threw([&] {s.top2();}) == t2 && threw([&] {s.top3();}) == t3, "top2()/top3() of a stack of %zu", m.size());
      while(!m.empty())
      {
         EXPECT(c, ::U(s.pop()) == m.back(), "pop() at the end");
         m.pop_back();
      }
      EXPECT(c, !s.hasElements() && s.size() == 0, "the emptied stack has elements");
   });
   scenario("long sequences", {2, "54 lengths up to 257, 14 orders: arrays filled and sorted, stacks pushed, reversed and popped"}, [](Ctx & c)
   {
      const auto& len = lengths(false);
      int n = len[c.choose((int)len.size())], kind = c.choose(kOrders);
      Array<String> s(n);
      std::vector<Item> items(n);
      Array<Item*> p(n);
      Array<Item> d(n);
      FloatArray f(n);
      Stack<int> st;
      std::vector<int> mi, pushed;
      for(int i = 0; i < n; i++)
      {
         int v = order(kind, i, n) + 5;
         items[i].v = v;
         items[i].id = i;
         s[i] = String(fmt("%05d", v).c_str());
         p[i] = &items[i];
         d[i] = items[i];
         f[i] = (float)v;
         mi.push_back(v);
         st.push(v);
         EXPECT(c, (int)st.size() == i + 1 && st.top() == v, "stack after %d elements", i + 1);
      }
      pushed = mi;
      s.sort();
      p.sort();
      d.sort();
      f.Sort();
      std::sort(mi.begin(), mi.end());
      std::set<int> ids;
      for(int i = 0; i < n; i++)
      {
         EXPECT(c, ::U(s[i]) == ::U(fmt("%05d", mi[i]).c_str()), "sorted strings, element %d of %d", i, n);
         EXPECT(c, p[i]->v == mi[i] && d[i].v == mi[i] && f[i] == (float)mi[i], "sorted values, element %d of %d", i, n);
         ids.insert(d[i].id);
      }
      EXPECT(c, (int)ids.size() == n, "sorting duplicates or loses an element");
      if(kind % 2)
      {
         st.reverse();
         std::reverse(pushed.begin(), pushed.end());
      }
      for(int i = n - 1; i >= 0; i--)
      {
         EXPECT(c, st.top() == pushed[i] && (int)st.size() == i + 1, "element %d of the stack", i);
         st.pop();
      }
      EXPECT(c, st.size() == 0, "the stack is not empty");
      c.trans(2 * n);
      c.state(n * 16 + kind);
   });
   scenario("very long sequences", {1, "10 numbers up to 100000: arrays of values, pointers, numbers and characters set, copied, assigned; stacks pushed, reversed, popped and cleared"}, [](Ctx & c)
   {
      static const int N[] = {1000, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000};
      int n = N[c.choose(10)];
      Array<int> v(n);
      Array<int*> p(n);
      FloatArray f(n);
      CharArray ch(n);
      Stack<int> st, st2;
      std::vector<int> m(n);
      for(int i = 0; i < n; i++)
      {
         m[i] = i * 7 + 1;
         v.set(i, m[i]);
         p.set(i, &m[i]);
         f[i] = (float)m[i];
         ch.buffer[i] = Char((uint16)(m[i] & 0xFFFF));
         st.push(m[i]);
         st2.push(m[i]);
      }
      Array<int> v2(v), v3(1);
      Array<int*> p2(p), p3(1);
      FloatArray f2(f), f3(1);
      CharArray c2(ch), c3(1);
      v3 = v;
      p3 = p;
      f3 = f;
      c3 = ch;
      EXPECT(c, v.size() == n && v2.size() == n && v3.size() == n && p.size() == n && p2.size() == n && p3.size() == n && ch.length == n && c2.length == n && c3.length == n && (int)st.size() == n, "sizes of sequences of %d elements", n);
      for(int i = 0; i < n; i++)
      {
         EXPECT(c, v[i] == m[i] && v2[i] == m[i] && v3[i] == m[i] && v.get(i) == m[i], "element %d of %d of an array", i, n);
         EXPECT(c, p[i] == &m[i] && p2[i] == &m[i] && p3[i] == &m[i], "element %d of %d of an array of pointers", i, n);
         EXPECT(c, f[i] == (float)m[i] && f2[i] == (float)m[i] && f3[i] == (float)m[i], "element %d of %d of an array of numbers", i, n);
         Char w((uint16)(m[i] & 0xFFFF));
         EXPECT(c, ch.buffer[i] == w && c2.buffer[i] == w && c3.buffer[i] == w, "element %d of %d of an array of characters", i, n);
      }
      EXPECT(c, threw([&] {v.get(n);}) && threw([&] {p.get(n);}) && threw([&] {v.get(-1);}), "access outside of %d elements was accepted", n);
      st2.reverse();
      for(int i = 0; i < n; i++)
      {
         EXPECT(c, (int)st.size() == n - i && st.top() == m[n - 1 - i] && st2.top() == m[i], "element %d of %d of a stack", i, n);
         st.pop();
         st2.pop();
      }
      EXPECT(c, st.size() == 0 && st2.size() == 0, "the stack is not empty");
      for(int x : m)st.push(x);
      st.clear();
      EXPECT(c, st.size() == 0, "the cleared stack is not empty");
      c.trans(20);
      c.state(n);
   });
}
