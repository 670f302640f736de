// LinkedList behaves as a sequence, also under undo and redo.
#include "undo.hpp"
using namespace jm;
const char* const kProperty = "U03";

namespace
{
   using Seq = std::vector<int>;
   struct World
   {
      TestDoc* doc;
      UndoManager* um;
      TestObj* owner;
      LinkedList* list;
      const int kElems;
      std::vector<Object*> e;
      Seq cur, openBefore, transBefore;
      bool open = false, changedInTrans = false;
      std::vector<std::pair<Seq, Seq>> undo, redo;
      explicit World(bool withUndo, int elements = 3): kElems(elements), e((size_t)elements)
      {
         doc = new TestDoc();
         if(!withUndo)doc->setUndoManager(false);
         um = doc->undoManager();
         owner = new TestObj(doc);
         list = new LinkedList(owner);
         for(auto& x : e)x = new Object();
      }
      void destroy(mc::Ctx& c)
      {
         // the history goes first (LinkedList's documentation)
         if(um)um->clearStacks();
         for(auto& x : e)EXPECT(c, x->referenceCount() == 1, "an element is left with %d references", x->referenceCount());
         EXPECT(c, list->referenceCount() == 1, "the list is left with %d references", list->referenceCount());
         list->release();
         owner->release();
         delete doc;
         for(auto& x : e)
         {
            EXPECT(c, x->referenceCount() == 1, "an element is left with %d references", x->referenceCount());
            x->release();
         }
      }
   };
   std::string S(const Seq& s)
   {
      std::string r;
      for(int i : s)r += i < 26 ? std::string(1, (char)('a' + i)) : mc::fmt("[%d]", i);
      return r;
   }
   void observe(mc::Ctx& c, World& w, const char* what)
   {
      c.trans();
      Seq got;
      w.list->rewind();
      while(w.list->hasNext())
      {
         Object* o = w.list->next();
         int i = 0;
         while(i < w.kElems && w.e[i] != o)i++;
         got.push_back(i);
         EXPECT(c, got.size() <= w.cur.size() + 1, "after %s: the list is longer than %zu", what, w.cur.size());
      }
      EXPECT(c, got == w.cur, "after %s: the list is '%s', expected '%s'", what, S(got).c_str(), S(w.cur).c_str());
      EXPECT(c, w.list->size() == w.cur.size(), "after %s: size() %u, expected %zu", what, w.list->size(), w.cur.size());
      EXPECT(c, w.list->first() == (w.cur.empty() ? nullptr : w.e[w.cur.front()]), "after %s: first()", what);
      EXPECT(c, w.list->last() == (w.cur.empty() ? nullptr : w.e[w.cur.back()]), "after %s: last()", what);
      LinkedListIterator it = w.list->iterator();
      LinkedListIterator copy(it);
      for(size_t i = 0; i < w.cur.size(); i++)
      {
         EXPECT(c, it.hasNext() && it.seek() == w.e[w.cur[i]], "after %s: iterator seek()", what);
         EXPECT(c, it.next() == w.e[w.cur[i]], "after %s: iterator next()", what);
         if(i == 0)copy = it;
      }
      EXPECT(c, !it.hasNext() && it.seek() == nullptr && it.next() == nullptr, "after %s: iterator at the end", what);
      if(w.cur.size() > 1)EXPECT(c, copy.next() == w.e[w.cur[1]], "after %s: copied iterator", what);
      if(w.um)
      {
         EXPECT(c, w.um->undoCount() == w.undo.size() && w.um->redoCount() == w.redo.size(), "after %s: undo/redo count", what);
      }
   }
   void before(World& w)
   {
      if(!w.um || !w.um->isActive())return;
      if(!w.open)w.openBefore = w.cur;
      w.open = true;
      w.redo.clear();
   }
   void closeStep(World& w)
   {
      w.um->close();
      if(!w.open)return;
      w.undo.push_back({w.openBefore, w.cur});
      w.open = false;
   }
   void move(mc::Ctx& c, World& w, bool undo)
   {
      auto& from = undo ? w.undo : w.redo;
      auto& to = undo ? w.redo : w.undo;
      bool can = !w.open && !from.empty();
      bool r = undo ? w.um->undo() : w.um->redo();
      EXPECT(c, r == can, "undo/redo returned %d, expected %d", r, can);
      if(!can)return;
      to.push_back(from.back());
      from.pop_back();
      w.cur = undo ? to.back().first : to.back().second;
   }
   // list operations: a, b, c added at the end; addBefore(x, y); remove(x); swap; clear
   void listOp(mc::Ctx& c, World& w)
   {
      int op = c.choose(5);
      Seq& s = w.cur;
      switch(op)
      {
         case 0:
         {
            int x = c.choose(w.kElems);
            if(std::count(s.begin(), s.end(), x) || (int)s.size() == w.kElems)c.discard();
            c.step("add %c", 'a' + x);
            before(w);
            w.list->add(w.e[x], w.um);
            s.push_back(x);
            observe(c, w, "add");
            break;
         }
         case 1:
         {
            int x = c.choose(w.kElems);
            c.step("remove %c", 'a' + x);
            auto it = std::find(s.begin(), s.end(), x);
            bool there = it != s.end();
            if(there)before(w);
            Status st = w.list->remove(w.e[x], w.um);
            EXPECT(c, st == (there ? Status::eOK : Status::eNotFound), "remove() returned %d", (int)st);
            if(there)s.erase(it);
            observe(c, w, "remove");
            break;
         }
         case 2:
         {
            int b = c.choose(w.kElems), x = c.choose(w.kElems);
            if(b == x || std::count(s.begin(), s.end(), x))c.discard();
            c.step("add %c before %c", 'a' + x, 'a' + b);
            auto it = std::find(s.begin(), s.end(), b);
            bool there = it != s.end();
            if(there)before(w);
            w.list->addBefore(w.e[b], w.e[x], w.um);
            if(there)s.insert(it, x);
            observe(c, w, "addBefore");
            break;
         }
         case 3:
         {
            int x = c.choose(w.kElems - 1), y = x + 1 + c.choose(w.kElems - 1 - x);
            c.step("swap %c and %c", 'a' + x, 'a' + y);
            auto i = std::find(s.begin(), s.end(), x), k = std::find(s.begin(), s.end(), y);
            bool both = i != s.end() && k != s.end();
            if(both)before(w);
            if(c.choose(2))w.list->swapData(w.e[x], w.e[y], w.um);
            else w.list->swapData(w.e[y], w.e[x], w.um);
            if(both)std::swap(*i, *k);
            observe(c, w, "swapData");
            break;
         }
         case 4:
            c.step("clear");
            if(!s.empty())before(w);
            w.list->clear(w.um);
            s.clear();
            observe(c, w, "clear");
            break;
      }
   }
   void state(mc::Ctx& c, World& w)
   {
      std::string st = mc::fmt("%d|%s|%s|", w.open, S(w.cur).c_str(), S(w.openBefore).c_str());
      for(auto& u : w.undo)st += S(u.first) + "," + S(u.second) + ";";
      st += "/";
      for(auto& u : w.redo)st += S(u.first) + "," + S(u.second) + ";";
      c.state(st);
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("without undo manager", {4, "3 elements, add/remove/addBefore/swap/clear at every position; depth 5 / 6"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w(false);
         int depth = tier(5, 6);
         for(int i = 0; i < depth; i++)
         {
            listOp(c, w);
            state(c, w);
         }
         w.destroy(c);
      });
   });
   auto prefill = [](mc::Ctx& c, World& w, int n)
   {
      for(int i = 0; i < n; i++)
      {
         before(w);
         w.list->add(w.e[i], w.um);
         w.cur.push_back(i);
      }
      if(w.um)closeStep(w);
      observe(c, w, "filling the list");
   };
   scenario("with undo manager", {4, "list of 0..3 elements, list operations and close, undo, redo; depth 4 / 5, then undone to the beginning and redone to the end"}, [prefill](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w(true);
         prefill(c, w, c.choose(4));
         int depth = tier(4, 5);
         for(int i = 0; i < depth; i++)
         {
            switch(c.choose(4))
            {
               case 0:
                  listOp(c, w);
                  break;
               case 1:
                  c.step("close");
                  closeStep(w);
                  break;
               case 2:
                  c.step("undo");
                  move(c, w, true);
                  break;
               case 3:
                  c.step("redo");
                  move(c, w, false);
                  break;
            }
            observe(c, w, "step");
            state(c, w);
         }
         if(c.choose(2))
         {
            closeStep(w);
            while(!w.undo.empty())move(c, w, true), observe(c, w, "undoing everything");
            while(!w.redo.empty())move(c, w, false), observe(c, w, "redoing everything");
            int k = w.undo.size() / 2;
            for(int i = 0; i < k; i++)move(c, w, true), observe(c, w, "undo");
         }
         w.destroy(c);
      });
   });
   scenario("one operation per step", {4, "every sequence of 3 / 4 list operations, each its own step, all undone and redone; from 0..3 elements"}, [prefill](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w(true);
         prefill(c, w, c.choose(4));
         int depth = tier(3, 4);
         for(int i = 0; i < depth; i++)
         {
            listOp(c, w);
            closeStep(w);
         }
         for(int r = 0; r < 2; r++)
         {
            while(!w.undo.empty())move(c, w, true), observe(c, w, "undoing everything");
            while(!w.redo.empty())move(c, w, false), observe(c, w, "redoing everything");
         }
         state(c, w);
         w.destroy(c);
      });
   });
   scenario("in a transaction that succeeds or fails", {4, "0..3 elements, 2 / 3 list operations in a transaction, committed or rolled back, undone and redone"}, [prefill](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w(true);
         prefill(c, w, c.choose(4));
         Seq beforeTrans = w.cur;
         w.um->openTransaction();
         auto undo = w.undo;
         // inside the transaction nothing reaches the stacks
         int depth = tier(2, 3);
         bool touched = false;
         for(int i = 0; i < depth; i++)
         {
            listOp(c, w);
            touched |= w.open;
         }
         bool fails = c.choose(2);
         if(fails)w.um->registerTransactionStatus(Status::eError);
         Status st = w.um->closeTransaction();
         EXPECT(c, (st == Status::eOK) == !fails, "closeTransaction()");
         if(fails)
         {
            w.cur = beforeTrans;
            w.open = false;
         }
         observe(c, w, fails ? "rollback" : "commit");
         closeStep(w);
         while(!w.undo.empty())move(c, w, true), observe(c, w, "undoing everything");
         while(!w.redo.empty())move(c, w, false), observe(c, w, "redoing everything");
         state(c, w);
         w.destroy(c);
      });
   });
   scenario("longer lists", {2, "lists of 4..6 elements out of 7, every sequence of 2 / 3 operations, each its own step or all in one, undone and redone"}, [prefill](Ctx & c)
   {
      leakFree(c, [&]
      {
         bool um = c.choose(3), own = um && c.choose(2);
         World w(um, 7);
         prefill(c, w, 4 + c.choose(3));
         int depth = tier(2, 3);
         for(int i = 0; i < depth; i++)
         {
            listOp(c, w);
            if(own)closeStep(w);
         }
         if(um)
         {
            closeStep(w);
            for(int r = 0; r < 2; r++)
            {
               while(!w.undo.empty())move(c, w, true), observe(c, w, "undoing everything");
               while(!w.redo.empty())move(c, w, false), observe(c, w, "redoing everything");
            }
         }
         state(c, w);
         w.destroy(c);
      });
   });
   scenario("long lists", {2, "lists of every length up to 40 and of 63..65, 127..129, 255..257, 1000 elements: one element inserted, moved or removed at every 7th place and near the ends, every k-th element removed, cleared; undone and redone"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         static const int LONG[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
         int l = c.choose(40 + (int)(sizeof LONG / sizeof *LONG)), n = l < 40 ? l + 1 : LONG[l - 40];
         bool um = c.choose(2);
         int how = c.choose(4);
         World w(um, n + 1);
         Seq& s = w.cur;
         auto check = [&](const char* what)
         {
            observe(c, w, what);
         };
         auto step = [&](const char* what, std::function<void()> f)
         {
            before(w);
            f();
            if(um && how != 3)closeStep(w);
            check(what);
         };
         step("filling", [&]
         {
            for(int i = 0; i < n; i++)
            {
               w.list->add(w.e[i], w.um);
               s.push_back(i);
            }
         });
         for(int at = 0; at < n; at += at < 3 || at >= n - 4 ? 1 : n < 20 ? 2 : n / 7)
         {
            if(how == 0 || how == 3)
            {
               step("addBefore", [&]
               {
                  w.list->addBefore(w.e[s[at]], w.e[n], w.um);
                  s.insert(s.begin() + at, n);
               });
               step("remove", [&]
               {
                  w.list->remove(w.e[n], w.um);
                  s.erase(s.begin() + at);
               });
            }
            else if(how == 1)
            {
               if(at != n - 1 - at)step("swapData", [&]
               {
                  w.list->swapData(w.e[s[at]], w.e[s[n - 1 - at]], w.um);
                  std::swap(s[at], s[n - 1 - at]);
               });
               step("moving to the end", [&]
               {
                  int x = s[at];
                  w.list->remove(w.e[x], w.um);
                  s.erase(s.begin() + at);
                  w.list->add(w.e[x], w.um);
                  s.push_back(x);
               });
            }
         }
         if(how >= 2)
         {
            int k = 2 + c.choose(2);
            step("removing every k-th element", [&]
            {
               for(int i = 0; i < n; i += k)
               {
                  w.list->remove(w.e[i], w.um);
                  s.erase(std::find(s.begin(), s.end(), i));
               }
            });
         }
         if(!s.empty())step("clear", [&]
         {
            w.list->clear(w.um);
            s.clear();
         });
         if(um)
         {
            closeStep(w);
            for(int r = 0; r < 2; r++)
            {
               while(!w.undo.empty())move(c, w, true), check("undoing everything");
               while(!w.redo.empty())move(c, w, false), check("redoing everything");
            }
         }
         c.state(n * 8 + how * 2 + um);
         w.destroy(c);
      });
   });
   scenario("very long lists", {0, "10 numbers of elements up to 100000, added at the end, with and without undo manager; first, last, size, both traversals, one element in the middle added, removed and swapped; undone and redone"}, [](Ctx & c)
   {
      static const int N[] = {1000, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000};
      int n = N[c.choose(10)];
      bool undo = c.choose(2);
      UndoManager um;
      um.setActive(true);
      UndoManager* u = undo ? &um : nullptr;
      std::vector<Object*> e;
      for(int i = 0; i < n + 1; i++)e.push_back(new Object());
      {
         Object owner;
         LinkedList* l = new LinkedList(&owner);
         std::vector<Object*> m;
         auto check = [&](const char* what)
         {
            EXPECT(c, l->size() == m.size(), "%s: size() %u, expected %zu", what, l->size(), m.size());
            EXPECT(c, l->first() == (m.empty() ? nullptr : m.front()) && l->last() == (m.empty() ? nullptr : m.back()), "%s: first() or last()", what);
            LinkedListIterator it = l->iterator();
            l->rewind();
            for(size_t i = 0; i < m.size(); i++)
            {
               EXPECT(c, l->hasNext() && l->next() == m[i], "%s: element %zu of the list", what, i);
               EXPECT(c, it.hasNext() && it.seek() == m[i] && it.next() == m[i], "%s: element %zu of the iterator", what, i);
            }
            EXPECT(c, !l->hasNext() && !it.hasNext(), "%s: an element too many", what);
            c.trans(3);
         };
         for(int i = 0; i < n; i++)
         {
            l->add(e[i], u);
            m.push_back(e[i]);
         }
         um.close();
         check("added");
         auto before = m;
         l->addBefore(e[n / 2], e[n], u);
         m.insert(m.begin() + n / 2, e[n]);
         check("addBefore");
         l->remove(e[n - 1], u);
         m.pop_back();
         l->swapData(e[0], e[n - 2], u);
         std::swap(m.front(), m.back());
         um.close();
         check("changed");
         if(undo)
         {
            auto after = m;
            um.undo();
            m = before;
            check("undone");
            um.undo();
            m.clear();
            check("undone to the beginning");
            um.redo();
            m = before;
            check("redone");
            um.redo();
            m = after;
            check("redone to the end");
         }
         l->clear(u);
         m.clear();
         um.close();
         check("cleared");
         um.clearStacks();
         l->release();
      }
      for(auto x : e)x->release();
      c.state(n * 2 + undo);
   });
}
