// StringList behaves like a growable sequence of strings, for every short operation sequence and
// around every growth of its storage.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "C02";

namespace
{
   using str = std::u16string;
   using List = std::vector<str>;

   str join(const List& m, char16_t d)
   {
      str r;
      for(size_t i = 0; i < m.size(); i++)r += (i ? str(1, d) : str()) + m[i];
      return r;
   }
   void same(mc::Ctx& c, StringList& l, const List& m, const char* what)
   {
      c.trans();
      EXPECT(c, l.size() == (int64)m.size(), "%s: %lld elements, expected %zu", what, (long long)l.size(), m.size());
      for(size_t i = 0; i < m.size(); i++)EXPECT(c, U(l.get(i)) == m[i], "%s: element %zu is \"%s\", expected \"%s\"", what, i, P(l.get(i)).c_str(), P(m[i]).c_str());
   }
   void observe(mc::Ctx& c, StringList& l, const List& m)
   {
      same(c, l, m, "content");
      size_t n = 0;
      for(String& s : l)
      {
         EXPECT(c, n < m.size() && U(s) == m[n], "iteration, element %zu", n);
         n++;
      }
      EXPECT(c, n == m.size(), "iteration over %zu of %zu elements", n, m.size());
      for(const char16_t* s : {u"", u"a", u"b", u"longer than the others"})
         EXPECT(c, l.contains(J(s)) == (std::find(m.begin(), m.end(), s) != m.end()), "contains(\"%s\")", P(str(s)).c_str());
      EXPECT(c, U(l.join(Char(','))) == join(m, ','), "join(): \"%s\"", P(l.join(Char(','))).c_str());
      c.trans(6);
   }
   const std::vector<str> kItems = {u"b", u"a", u"", u"longer than the others"};

   void step(mc::Ctx& c, StringList& l, List& m)
   {
      int op = c.choose(16);
      size_t n = m.size();
      auto idx = [&](size_t cnt)
      {
         int k = c.choose(3);
         return k == 0 ? 0 : k == 1 ? cnt / 2 : cnt - 1;
      };
      switch(op)
      {
         case 0: case 1: case 2: case 3:
            c.step("append(\"%s\")", P(kItems[op]).c_str());
            if(op & 1)l << J(kItems[op]);
            else l.append(J(kItems[op]));
            m.push_back(kItems[op]);
            break;
         case 4:
            if(n == 0)c.discard();
            c.step("append(own element)");
            {
               size_t i = idx(n);
               l.append(l.get(i));
               m.push_back(str(m[i]));
            }
            break;
         case 5: case 6:
            c.step("remove(\"%s\")", P(kItems[op - 5]).c_str());
            l.remove(J(kItems[op - 5]));
            m.erase(std::remove(m.begin(), m.end(), kItems[op - 5]), m.end());
            break;
         case 7:
            if(n == 0)c.discard();
            {
               size_t i = idx(n);
               c.step("remove(own element %zu)", i);
               str v = m[i];
               l.remove(l.get(i));
               m.erase(std::remove(m.begin(), m.end(), v), m.end());
            }
            break;
         case 8:
            if(n == 0)c.discard();
            {
               size_t i = idx(n);
               c.step("set(%zu)", i);
               l.set(i, J(u"set"));
               m[i] = u"set";
            }
            break;
         case 9:
            if(n == 0)c.discard();
            {
               size_t i = idx(n);
               c.step("[%zu] = ", i);
               l[i] = J(u"a");
               m[i] = u"a";
            }
            break;
         case 10:
            c.step("clear()");
            l.clear();
            m.clear();
            break;
         case 11:
         {
            int k = c.choose(4);
            int64 r = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 8 : 100;
            c.step("reserve(%lld)", (long long)r);
            l.reserve(r);
            break;
         }
         case 12:
            c.step("sort()");
            l.sort();
            std::sort(m.begin(), m.end());
            break;
         case 13:
         {
            c.step("copy, change the copy, assign back and forth");
            StringList k(l);
            same(c, k, m, "copy");
            k.append(J(u"copy"));
            if(n)k.set(0, J(u"changed"));
            same(c, l, m, "the copied list");
            StringList e;
            e = k;
            EXPECT(c, e.size() == (int64)n + 1, "assignment");
            k = l;
            e.clear();
            l = k;
            break;
         }
         case 14:
            c.step("assign itself");
            l = l;
            break;
         case 15:
         {
            c.step("assign from a smaller list");
            StringList k(J(u"only"));
            l = k;
            m = {u"only"};
            break;
         }
      }
      c.trans();
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   static const std::vector<int> fills = {0, 1, 2, 6, 7, 8, 9, 15, 16, 17};
   scenario("operation sequences on prefilled lists", {3, "0,1,2,6..9,15..17 elements (all different, or with duplicates of \"a\"); 16 operations incl. own elements as arguments; depth 3 / 4"}, [](Ctx & c)
   {
      int fill = fills[c.choose((int)fills.size())];
      int dup = c.choose(2);
      StringList l;
      List m;
      for(int i = 0; i < fill; i++)
      {
         str s = dup && i % 3 != 1 ? u"a" : U(fmt("e%02d", (i * 7) % 20).c_str());
         l.append(J(s));
         m.push_back(s);
      }
      c.step("%d elements", fill);
      int depth = tier(3, 4);
      for(int d = 0; d < depth; d++)
      {
         step(c, l, m);
         same(c, l, m, "content");
      }
      observe(c, l, m);
      c.state(P(join(m, '|')));
   });
   scenario("sorting every list", {3, "every list over {\"\",a,aa,b,B} up to length 5 / 6"}, [](Ctx & c)
   {
      static const std::vector<str> e = {u"b", u"", u"a", u"aa", u"B"};
      int n = c.choose(tier(6, 7));
      StringList l;
      List m;
      for(int i = 0; i < n; i++)
      {
         m.push_back(e[c.choose(5)]);
         l.append(J(m.back()));
      }
      observe(c, l, m);
      l.sort();
      std::sort(m.begin(), m.end());
      observe(c, l, m);
      c.state(P(join(m, '|')));
   });
   scenario("growth", {1, "lists of 0..80 / 300 elements, built from an empty, a sized and a one-element list; element k removed; refilled"}, [](Ctx & c)
   {
      int n = c.choose(tier(80, 300));
      int how = c.choose(3);
      StringList l = how == 0 ? StringList() : how == 1 ? StringList((int64)n) : StringList(J(u"first"));
      List m;
      if(how == 1)m.assign(n, u"");
      if(how == 2)m = {u"first"};
      same(c, l, m, "new list");
      for(int i = 0; i < n; i++)
      {
         str s = U(fmt("x%d", i).c_str());
         l << J(s);
         m.push_back(s);
      }
      observe(c, l, m);
      if(n)
      {
         str v = m[n / 2];
         l.remove(J(v));
         m.erase(std::remove(m.begin(), m.end(), v), m.end());
      }
      observe(c, l, m);
      EXPECT(c, threw([&] {l.get(-1);}) && threw([&] {l.get((int64)m.size());}) && threw([&] {l.set((int64)m.size(), J(u"x"));}) && threw([&] {l[(int64)m.size()];}), "an index outside the list was accepted");
      observe(c, l, m);
      l.clear();
      m.clear();
      observe(c, l, m);
      for(int i = 0; i < 20; i++)
      {
         l << J(u"again");
         m.push_back(u"again");
      }
      observe(c, l, m);
      c.state(fmt("%d %d", n, how));
   });
   scenario("sorting long lists", {2, "63 lengths up to 1025 (quick: 54 up to 257), 14 orders, items of one or up to 5 characters; then every element found, and removed in another order"}, [](Ctx & c)
   {
      const auto& len = lengths(thorough());
      int n = len[c.choose((int)len.size())], kind = c.choose(kOrders), wide = c.choose(2);
      StringList l;
      List m;
      for(int i = 0; i < n; i++)
      {
         int v = order(kind, i, n) + 1;
         m.push_back(wide ? U(fmt("%d", v).c_str()) : str(1, (char16_t)(33 + v)));
         l.append(J(m.back()));
      }
      l.sort();
      std::sort(m.begin(), m.end());
      same(c, l, m, "sorted list");
      for(int i = 0; i < n; i += 1 + n / 8)
      {
         if(i >= (int)m.size())break;
         str v = m[i];
         EXPECT(c, l.contains(J(v)) && !l.contains(J(v + u"?")), "contains()");
         l.remove(J(v));
         m.erase(std::remove(m.begin(), m.end(), v), m.end());
         same(c, l, m, "list without an element");
         EXPECT(c, !l.contains(J(v)), "contains() a removed element");
      }
      c.state(fmt("%d %d", n, kind));
   });
   scenario("very long lists", {1, "8 numbers of elements up to 65537, appended or set: content, lookup, copy, assignment, joining, removal of every third"}, [](Ctx & c)
   {
      static const int N[] = {1000, 1024, 4097, 8191, 8192, 32768, 65536, 65537};
      int n = N[c.choose(8)];
      StringList l((int64)n);
      List m;
      for(int i = 0; i < n; i++)
      {
         m.push_back(i % 3 == 0 ? str(u"third") : U(fmt("%d", i).c_str()));
         l.set(i, J(m[i]));
      }
      auto check = [&](StringList& x, const List& y, const char* what)
      {
         EXPECT(c, x.size() == (int64)y.size(), "%s: %lld elements, expected %zu", what, (long long)x.size(), y.size());
         for(size_t i = 0; i < y.size(); i++)EXPECT(c, U(x.get(i)) == y[i], "%s: element %zu of %d", what, i, n);
         c.trans();
      };
      check(l, m, "set");
      StringList k(l), a;
      check(k, m, "copy");
      a = l;
      check(a, m, "assigned");
      EXPECT(c, l.contains(J(m.back())) && l.contains(J(u"third")) && !l.contains(J(u"nothing")), "contains() with %d elements", n);
      str j;
      for(int i = 0; i < n; i++)j += (i ? u"," : u"") + m[i];
      EXPECT(c, U(l.join(Char(','))) == j, "join() of %d elements", n);
      k.append(J(u"more"));
      List km = m;
      km.push_back(u"more");
      check(k, km, "appended");
      if(n < 5000)
      {
         k.remove(J(u"third"));
         km.erase(std::remove(km.begin(), km.end(), str(u"third")), km.end());
         check(k, km, "removed");
      }
      check(l, m, "the copied list");
      l.clear();
      EXPECT(c, l.size() == 0, "cleared");
      c.state(n);
   });
}
