// Hashtable behaves like a map from strings to pointers, over every short operation sequence,
// started from tables of every interesting fill (around each growth of the table).
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "C01";

namespace
{
   int gVal[8];

   struct Key
   {
      std::u16string u;
   };
   // "Aa"/"BB" and "AaAa"/"BBBB"/"AaBB": equal hash codes; long keys: hash codes above 2^31
   const std::vector<std::u16string> kKeys = {u"Aa", u"BB", u"", u"zzzzzzzz", u"AaBBAaBBAaBB", u"BBAaAaBBBBAa", u"\u00e4\u20ac\uffff", u"k1"};

   struct World
   {
      Hashtable t;
      std::map<std::u16string, void*> m;
   };

   void observe(mc::Ctx& c, World& w, const std::vector<std::u16string>& watch)
   {
      EXPECT(c, w.t.size() == (int64)w.m.size(), "size() is %lld, %zu entries are expected", (long long)w.t.size(), w.m.size());
      EXPECT(c, w.t.isEmpty() == w.m.empty(), "isEmpty() with %zu entries", w.m.size());
      c.trans(2);
      for(auto& k : watch)
      {
         auto it = w.m.find(k);
         void* want = it == w.m.end() ? nullptr : it->second;
         String fresh = J(k);
         EXPECT(c, w.t.get(fresh) == want, "get(\"%s\") wrong", P(k).c_str());
         EXPECT(c, w.t.containsKey(fresh) == (want != nullptr), "containsKey(\"%s\") wrong", P(k).c_str());
         fresh.hashCode(); // the same text, with its hash code already known
         EXPECT(c, w.t.get(fresh) == want, "get(\"%s\") wrong after hashCode()", P(k).c_str());
         c.trans(3);
      }
      for(int v = 0; v < 4; v++)
      {
         bool want = false;
         for(auto& e : w.m)if(e.second == &gVal[v])want = true;
         EXPECT(c, w.t.containsValue(&gVal[v]) == want, "containsValue() wrong");
      }
      c.trans(4);
   }
   void observeIter(mc::Ctx& c, World& w)
   {
      Iterator* it = w.t.keys();
      std::multiset<std::u16string> got, want;
      size_t n = 0;
      while(it->hasNext())
      {
         EXPECT(c, it->hasNext(), "hasNext() changes the iteration");
         Object* o = it->next();
         EXPECT(c, o != nullptr, "keys() returned null");
         got.insert(U(*reinterpret_cast<String*>(o)));
         EXPECT(c, ++n <= w.m.size(), "keys() iterates over more than the %zu entries", w.m.size());
      }
      EXPECT(c, it->next() == nullptr, "next() after the end");
      delete it;
      for(auto& e : w.m)want.insert(e.first);
      EXPECT(c, got == want, "keys() does not iterate over exactly the keys of the table");
      std::multiset<void*> gv, wv;
      it = w.t.values();
      n = 0;
      // without hasNext(): ends with null
      for(void* v; (v = (void*)it->next()) != nullptr;)
      {
         gv.insert(v);
         EXPECT(c, ++n <= w.m.size(), "values() iterates over more than the %zu entries", w.m.size());
      }
      EXPECT(c, !it->hasNext(), "hasNext() after the end");
      delete it;
      for(auto& e : w.m)wv.insert(e.second);
      EXPECT(c, gv == wv, "values() does not iterate over exactly the values of the table");
      c.trans(2);
   }
   std::string canon(World& w)
   {
      std::string s;
      for(auto& e : w.m)s += P(e.first) + "=" + std::to_string((int*)e.second - gVal) + ";";
      return s;
   }
   void put(mc::Ctx& c, World& w, const std::u16string& k, int v, bool hashed)
   {
      c.step("put(\"%s\"%s, v%d)", P(k).c_str(), hashed ? " hashed" : "", v);
      auto it = w.m.find(k);
      void* want = it == w.m.end() ? nullptr : it->second;
      String key = J(k);
      if(hashed)key.hashCode();
      void* got = w.t.put(key, &gVal[v]);
      EXPECT(c, got == want, "put(\"%s\") did not return the value it replaced", P(k).c_str());
      key.append('x'); // the table keeps its own key
      w.m[k] = &gVal[v];
      c.trans();
   }
   void remove(mc::Ctx& c, World& w, const std::u16string& k)
   {
      c.step("remove(\"%s\")", P(k).c_str());
      auto it = w.m.find(k);
      void* want = it == w.m.end() ? nullptr : it->second;
      void* got = w.t.remove(J(k));
      EXPECT(c, got == want, "remove(\"%s\") did not return the value", P(k).c_str());
      w.m.erase(k);
      c.trans();
   }
   std::u16string filler(int i)
   {
      return U(mc::fmt("filler-%d", i * 7919).c_str());
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   assume("null values are outside the alphabet (get() cannot tell them from an absent key)");
   static const std::vector<int> fills = {0, 4, 5, 6, 10, 11, 12, 22, 23, 24, 46, 47, 48};
   scenario("mixed operations on prefilled tables", {2, "fill in {0,4,5,6,10..12,22..24,46..48}; 4 keys (two with equal hash) x {put fresh, put hashed, remove} + clear; depth 4 (quick) / 5 (thorough)"}, [](Ctx & c)
   {
      World w;
      std::vector<std::u16string> watch(kKeys.begin(), kKeys.end());
      int fill = fills[c.choose((int)fills.size())];
      for(int i = 0; i < fill; i++)
      {
         w.t.put(J(filler(i)), &gVal[2]);
         w.m[filler(i)] = &gVal[2];
         c.trans();
      }
      c.step("table with %d further entries", fill);
      if(fill)
      {
         watch.push_back(filler(0));
         watch.push_back(filler(fill - 1));
      }
      int depth = tier(4, 5);
      for(int d = 0; d < depth; d++)
      {
         int op = c.choose(13);
         if(op == 12)
         {
            c.step("clear()");
            w.t.clear();
            w.m.clear();
         }
         else
         {
            const auto& k = kKeys[op % 4];
            if(op < 4)put(c, w, k, d & 1, false);
            else if(op < 8)put(c, w, k, 3, true);
            else remove(c, w, k);
         }
         observe(c, w, watch);
         c.state(canon(w));
      }
      observeIter(c, w);
   });
   scenario("long sequences on colliding keys", {4, "3 keys of one bucket, {put a, put b, remove}, clear; depth 7 (quick) / 8 (thorough), removal from head, middle and end of a chain"}, [](Ctx & c)
   {
      World w;
      static const std::vector<std::u16string> ks = {u"AaAaAaAa", u"BBBBBBBB", u"AaBBAaBB"};
      int depth = tier(7, 8);
      for(int d = 0; d < depth; d++)
      {
         int op = c.choose(7);
         if(op == 6)
         {
            c.step("clear()");
            w.t.clear();
            w.m.clear();
         }
         else if(op < 3)put(c, w, ks[op % 3], d & 3, d & 1);
         else remove(c, w, ks[op % 3]);
         observe(c, w, ks);
         c.state(canon(w));
      }
      observeIter(c, w);
   });
   scenario("growth: n keys in, then every subset pattern out", {2, "n = 0..200 keys, removal of every k-th key starting at s"}, [](Ctx & c)
   {
      World w;
      int n = c.choose(tier(120, 400));
      int stride = 1 + c.choose(5);
      int start = c.choose(stride);
      bool hashed = c.choose(2);
      for(int i = 0; i < n; i++)
      {
         String k = J(filler(i));
         if(hashed)k.hashCode();
         EXPECT(c, w.t.put(k, &gVal[i & 3]) == nullptr, "put() of new key %d returned a value", i);
         w.m[filler(i)] = &gVal[i & 3];
         c.trans();
      }
      c.step("%d keys; removing every %d. from %d", n, stride, start);
      observeIter(c, w);
      for(int i = start; i < n; i += stride)
      {
         EXPECT(c, w.t.remove(J(filler(i))) == &gVal[i & 3], "remove() of key %d of %d", i, n);
         w.m.erase(filler(i));
         c.trans();
      }
      std::vector<std::u16string> watch;
      for(int i = 0; i < n; i++)watch.push_back(filler(i));
      observe(c, w, watch);
      observeIter(c, w);
      c.state(mc::fmt("%d %d %d", n, stride, start));
   });
   scenario("large tables", {0, "63 fills up to 1025 and 5000, 20000; three patterns of keys; every third key removed and set again; then cleared and filled again"}, [](Ctx & c)
   {
      std::vector<int> len = lengths();
      len.push_back(5000);
      len.push_back(20000);
      int n = len[c.choose((int)len.size())], kind = c.choose(3);
      auto key = [&](int i)
      {
         if(kind == 0)return U(fmt("%d", i).c_str());
         if(kind == 1)return U(fmt("key-%08x", i * 2654435761u).c_str());
         std::u16string s; // many keys with the same hash code
         for(int b = 0; b < 15; b++)s += i >> b & 1 ? u"BB" : u"Aa";
         return i < 200 ? s : U(fmt("other %d", i).c_str());
      };
      Hashtable t;
      auto expect = [&](int i, void* want, const char* when)
      {
         String k = J(key(i));
         EXPECT(c, t.get(k) == want && t.containsKey(k) == (want != nullptr), "%s: entry %d of %d", when, i, n);
      };
      for(int round = 0; round < 2; round++)
      {
         for(int i = 0; i < n; i++)
         {
            EXPECT(c, t.put(J(key(i)), &gVal[i % 8]) == nullptr, "key %d is said to be there already", i);
            EXPECT(c, t.size() == i + 1, "size() %lld after %d entries", (long long)t.size(), i + 1);
         }
         for(int i = 0; i < n; i++)expect(i, &gVal[i % 8], "filled");
         EXPECT(c, !t.containsKey("none"), "absent key");
         for(int i = 0; i < n; i += 3)EXPECT(c, t.remove(J(key(i))) == &gVal[i % 8], "remove() of entry %d", i);
         EXPECT(c, t.size() == n - (n + 2) / 3, "size after removing");
         for(int i = 0; i < n; i++)expect(i, i % 3 ? &gVal[i % 8] : nullptr, "a third removed");
         std::set<std::u16string> seen;
         Iterator* it = t.keys();
         while(it->hasNext())seen.insert(U(*reinterpret_cast<String*>(it->next())));
         delete it;
         EXPECT(c, (int64)seen.size() == t.size(), "keys(): %zu of %lld", seen.size(), (long long)t.size());
         for(int i = 0; i < n; i += 3)t.put(J(key(i)), &gVal[(i + 1) % 8]);
         for(int i = 0; i < n; i++)
         {
            expect(i, &gVal[(i + (i % 3 == 0)) % 8], "set again");
            EXPECT(c, t.put(J(key(i)), &gVal[(i + 5) % 8]) == &gVal[(i + (i % 3 == 0)) % 8], "the replaced value of %d", i);
         }
         EXPECT(c, t.size() == n, "size after replacing");
         c.trans(6 * n);
         t.clear();
         EXPECT(c, t.size() == 0 && t.isEmpty() && !t.containsKey(J(key(0))) && !t.keys()->hasNext(), "cleared");
      }
      c.state(n * 4 + kind);
   });
}
