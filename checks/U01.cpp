// Undo and redo restore exact document states.
#include "undo.hpp"
using namespace jm;
const char* const kProperty = "U01";

namespace
{
   using Snap = std::vector<int>; // value index of every variable
   struct Step
   {
      Snap before, after;
      std::set<int> touched; // objects
   };
   // 3 variables in 2 objects
   struct World
   {
      TestDoc* doc = new TestDoc();
      UndoManager* um = doc->undoManager();
      TestObj* o[2] = {new TestObj(doc), new TestObj(doc)};
      std::vector<std::pair<int, int>> vars; // object, type
      Snap cur, openBefore;
      bool open = false;
      std::set<int> openTouched;
      std::vector<Step> undo, redo;
      ~World()
      {
         delete doc; // deletes the undo manager: the history goes first
         o[0]->release();
         o[1]->release();
      }
   };
   void observe(mc::Ctx& c, World& w, const char* what)
   {
      c.trans();
      TestObj ref(nullptr);
      for(size_t i = 0; i < w.vars.size(); i++)
      {
         ref.set(w.vars[i].second, w.cur[i]);
         std::string e = ref.get(w.vars[i].second), g = w.o[w.vars[i].first]->get(w.vars[i].second);
         EXPECT(c, g == e, "after %s: variable %zu (%s) is '%s', expected '%s'", what, i, typeName(w.vars[i].second), g.c_str(), e.c_str());
      }
      EXPECT(c, w.um->undoCount() == w.undo.size(), "after %s: undoCount() %u, expected %zu", what, w.um->undoCount(), w.undo.size());
      EXPECT(c, w.um->redoCount() == w.redo.size(), "after %s: redoCount() %u, expected %zu", what, w.um->redoCount(), w.redo.size());
      EXPECT(c, w.um->hasOpenUndoStep() == w.open, "after %s: hasOpenUndoStep()", what);
   }
   void swapStep(mc::Ctx& c, World& w, bool undo)
   {
      auto& from = undo ? w.undo : w.redo;
      auto& to = undo ? w.redo : w.undo;
      bool can = !w.open && !from.empty();
      for(auto x : w.o)x->regenerationDone();
      w.doc->setDocumentChanged(false);
      bool r = undo ? w.um->undo() : w.um->redo();
      EXPECT(c, r == can, "%s returned %d, expected %d", undo ? "undo()" : "redo()", r, can);
      if(!can)
      {
         EXPECT(c, !w.doc->isDocumentChanged(), "a refused undo/redo marked the document as changed");
         return;
      }
      Step s = from.back();
      from.pop_back();
      w.cur = undo ? s.before : s.after;
      to.push_back(s);
      EXPECT(c, w.doc->isDocumentChanged(), "undo/redo did not mark the document as changed");
      for(int i = 0; i < 2; i++)
         EXPECT(c, !s.touched.count(i) || w.o[i]->shouldRegenerate(), "changed object %d not marked for regeneration", i);
   }
   void change(World& w, int v, int k)
   {
      w.o[w.vars[v].first]->change(w.um, w.vars[v].second, k);
      if(!w.open)
      {
         w.open = true;
         w.openBefore = w.cur;
         w.openTouched.clear();
      }
      w.openTouched.insert(w.vars[v].first);
      w.redo.clear();
      w.cur[v] = k;
   }
   void close(World& w)
   {
      w.um->close();
      if(!w.open)return;
      w.undo.push_back({w.openBefore, w.cur, w.openTouched});
      w.open = false;
   }
   void step(mc::Ctx& c, World& w, int ops)
   {
      switch(c.choose(ops))
      {
         case 0:
         {
            int k = c.choose(3);
            c.step("var0 = value %d", k);
            change(w, 0, k);
            observe(c, w, "change");
            break;
         }
         case 1:
         {
            int k = c.choose(2);
            c.step("var1 = value %d", k);
            change(w, 1, k);
            observe(c, w, "change");
            break;
         }
         case 2:
            c.step("undo");
            swapStep(c, w, true);
            observe(c, w, "undo");
            break;
         case 3:
            c.step("redo");
            swapStep(c, w, false);
            observe(c, w, "redo");
            break;
         case 4:
            c.step("close");
            w.doc->setDocumentChanged(false);
            {
               bool had = w.open;
               close(w);
               EXPECT(c, w.doc->isDocumentChanged() == had, "document changed flag after close()");
            }
            observe(c, w, "close");
            break;
         case 5:
         {
            int k = c.choose(2);
            c.step("inactive: var2 = value %d", k + 1);
            w.um->setActive(false);
            EXPECT(c, !w.um->isActive(), "isActive()");
            w.o[w.vars[2].first]->change(w.um, w.vars[2].second, k + 1);
            // var2 is only ever changed while inactive: no history contains it
            w.cur[2] = k + 1;
            w.openBefore[2] = k + 1;
            for(auto* st : {&w.undo, &w.redo})for(auto& s : *st)s.before[2] = s.after[2] = k + 1;
            w.um->setActive(true);
            observe(c, w, "change while inactive");
            break;
         }
         case 6:
            c.step("clearRedoStack");
            w.um->clearRedoStack();
            w.redo.clear();
            observe(c, w, "clearRedoStack");
            break;
         case 7:
            c.step("clearUndoStack");
            w.um->clearUndoStack();
            w.undo.clear();
            observe(c, w, "clearUndoStack");
            break;
         case 8:
            c.step("clearStacks");
            w.um->clearStacks();
            w.undo.clear();
            w.redo.clear();
            w.open = false;
            observe(c, w, "clearStacks");
            break;
      }
      std::string st = mc::fmt("%d|", w.open);
      auto add = [&](const Snap & s)
      {
         for(int x : s)st += (char)('0' + x);
         st += '.';
      };
      add(w.cur);
      if(w.open)add(w.openBefore);
      for(auto& s : w.undo)add(s.before), add(s.after);
      st += '/';
      for(auto& s : w.redo)add(s.before), add(s.after);
      c.state(st);
   }
   void init(World& w, std::vector<std::pair<int, int>> vars)
   {
      w.vars = vars;
      w.cur.assign(vars.size(), 0);
      w.openBefore = w.cur;
   }

   // object references: reachable from the variable or the history = alive, otherwise destroyed
   struct Probe : public Object
   {
      int* alive;
      explicit Probe(int* a): alive(a)
      {
         ++*alive;
      }
      ~Probe() override
      {
         --*alive;
      }
   };
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("histories of changes, steps, undo and redo", {4, "2 recorded variables (int64, String) in 2 objects, 1 unrecorded; changes, close, undo, redo; depth 6 / 8"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w;
         init(w, {{0, 8}, {1, 14}, {0, 5}});
         int depth = tier(6, 8);
         for(int i = 0; i < depth; i++)step(c, w, 5);
      });
   });
   scenario("histories with deactivation and clearing", {4, "as before, with changes while inactive, clearing of the undo, redo or both stacks; depth 5 / 6"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w;
         init(w, {{0, 8}, {1, 14}, {0, 5}});
         int depth = tier(5, 6);
         for(int i = 0; i < depth; i++)step(c, w, 9);
      });
   });
   scenario("undo and redo around three finished steps", {4, "three closed steps over 2 variables, then undo/redo/change/close to depth 6 / 8"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w;
         init(w, {{0, 8}, {1, 14}, {0, 5}});
         for(int s = 0; s < 3; s++)
         {
            change(w, 0, (s + 1) % 3);
            if(s != 1)change(w, 1, (s + 2) % 3);
            if(s == 2)change(w, 0, 2);
            close(w);
         }
         observe(c, w, "three steps");
         int depth = tier(6, 8);
         for(int i = 0; i < depth; i++)
         {
            int op = c.choose(4);
            if(op == 0)c.step("undo"), swapStep(c, w, true);
            else if(op == 1)c.step("redo"), swapStep(c, w, false);
            else if(op == 2)c.step("change"), change(w, i & 1, (w.cur[i & 1] + 1) % 3);
            else c.step("close"), close(w);
            observe(c, w, "step");
         }
      });
   });
   scenario("every type", {2, "every ordered pair of the 17 value types x every pair of values, three steps, undo and redo in every order of 6 / 8 moves"}, [](Ctx & c)
   {
      int ta = c.choose(kTypes), tb = c.choose(kTypes);
      World w;
      if(ta == tb)init(w, {{0, ta}, {1, tb}});
      else init(w, {{0, ta}, {0, tb}});
      int k1 = c.choose(3), k2 = c.choose(3);
      c.step("%s, %s, values %d %d", typeName(ta), typeName(tb), k1, k2);
      change(w, 0, k1);
      change(w, 1, k2);
      change(w, 0, k2);
      observe(c, w, "change");
      close(w);
      change(w, 1, (k1 + 1) % 3);
      change(w, 1, (k1 + 2) % 3);
      close(w);
      change(w, 0, (k2 + 1) % 3);
      change(w, 1, k1);
      close(w);
      observe(c, w, "close");
      int n = tier(6, 8);
      for(int i = 0; i < n; i++)
      {
         if(i < 2)swapStep(c, w, true);
         else if(i == n - 1)swapStep(c, w, false);
         else swapStep(c, w, c.choose(2));
         observe(c, w, "undo/redo");
      }
      c.state(fmt("%d %d %d %d", ta, tb, k1, k2));
   });
   scenario("long histories", {2, "1..24 steps of 1..24 changes to the 17 types in 2 objects, undone to the beginning and redone, twice"}, [](Ctx & c)
   {
      int n = 1 + c.choose(24), m = 1 + c.choose(24);
      c.step("%d steps of %d changes", n, m);
      World w;
      std::vector<std::pair<int, int>> vars;
      for(int t = 0; t < kTypes; t++)vars.push_back({t & 1, t});
      init(w, vars);
      for(int s = 0; s < n; s++)
      {
         for(int k = 0; k < m; k++)change(w, (s * m + k * (1 + s % 3)) % kTypes, (s + k + k / kTypes) % 3);
         close(w);
         observe(c, w, "step");
      }
      for(int r = 0; r < 2; r++)
      {
         for(int s = 0; s < n; s++)swapStep(c, w, true), observe(c, w, "undo");
         swapStep(c, w, true);
         for(int s = 0; s < n; s++)swapStep(c, w, false), observe(c, w, "redo");
         swapStep(c, w, false);
      }
      c.state(fmt("%d %d", n, m));
   });
   scenario("object references and ownership", {3, "one reference, objects taken over and dropped, steps, undo, redo, clear; depth 6 / 8"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         const int kProbes = 3;
         int alive[kProbes] = {0, 0, 0};
         TestDoc* doc = new TestDoc();
         UndoManager* um = doc->undoManager();
         TestObj* o = new TestObj(doc);
         Probe* p[kProbes];
         for(int i = 0; i < kProbes; i++)p[i] = nullptr;
         struct St
         {
            int before, after;
            std::set<int> used;
         };
         int cur = -1;
         std::vector<St> undo, redo;
         St open{};
         bool isOpen = false;
         int created = 0;
         auto check = [&](const char* what)
         {
            c.trans();
            EXPECT(c, o->ref == (cur < 0 ? nullptr : (Object*)p[cur]), "after %s: wrong reference", what);
            for(int i = 0; i < created; i++)
            {
               bool held = cur == i;
               for(auto& s : undo)held |= s.used.count(i) > 0;
               for(auto& s : redo)held |= s.used.count(i) > 0;
               if(isOpen)held |= open.used.count(i) > 0;
               EXPECT(c, alive[i] == (held ? 1 : 0), "after %s: object %d is %s although it is %s", what, i, alive[i] ? "alive" : "destroyed", held ? "still in use" : "no longer used");
               EXPECT(c, !held || p[i]->referenceCount() >= 1, "reference count of object %d", i);
            }
         };
         auto setRef = [&](int n)
         {
            um->registerChange(o, &o->ref);
            Object* old = o->ref;
            if(old)um->registerRelease(old);
            o->ref = n < 0 ? nullptr : p[n];
            if(n >= 0)
            {
               p[n]->retain();
               um->registerRetain(p[n]);
            }
            if(old)old->release();
            if(!isOpen)
            {
               isOpen = true;
               open = St{cur, n, {}};
            }
            open.after = n;
            if(cur >= 0)open.used.insert(cur);
            if(n >= 0)open.used.insert(n);
            redo.clear();
            cur = n;
         };
         int depth = tier(6, 8);
         for(int d = 0; d < depth; d++)
         {
            int op = c.choose(7);
            const char* name = "";
            switch(op)
            {
               case 0: // a new object
                  if(created == kProbes)c.discard();
                  name = "reference to a new object";
                  c.step("%s", name);
                  p[created] = new Probe(&alive[created]);
                  created++;
                  setRef(created - 1);
                  p[created - 1]->release();
                  break;
               case 1: // the oldest object that is still alive
                  if(!created || !alive[0])c.discard();
                  name = "reference to object 0";
                  c.step("%s", name);
                  p[0]->retain(); // the history that alone may hold it is cleared by the change
                  setRef(0);
                  p[0]->release();
                  break;
               case 2:
                  name = "reference cleared";
                  c.step("%s", name);
                  setRef(-1);
                  break;
               case 3:
                  name = "close";
                  c.step("%s", name);
                  um->close();
                  if(isOpen)undo.push_back(open);
                  isOpen = false;
                  break;
               case 4:
               {
                  name = "undo";
                  c.step("%s", name);
                  bool can = !isOpen && !undo.empty();
                  EXPECT(c, um->undo() == can, "undo()");
                  if(can)
                  {
                     cur = undo.back().before;
                     redo.push_back(undo.back());
                     undo.pop_back();
                  }
                  break;
               }
               case 5:
               {
                  name = "redo";
                  c.step("%s", name);
                  bool can = !isOpen && !redo.empty();
                  EXPECT(c, um->redo() == can, "redo()");
                  if(can)
                  {
                     cur = redo.back().after;
                     undo.push_back(redo.back());
                     redo.pop_back();
                  }
                  break;
               }
               case 6:
                  name = "clearStacks";
                  c.step("%s", name);
                  um->clearStacks();
                  undo.clear();
                  redo.clear();
                  isOpen = false;
                  break;
            }
            check(name);
         }
         // the model uses alive[0] only through choices that the model itself decides (check() has
         // established that it agrees)
         um->clearStacks();
         undo.clear();
         redo.clear();
         isOpen = false;
         check("final clear");
         if(o->ref)o->ref->release();
         o->ref = nullptr;
         cur = -1;
         check("final release");
         EXPECT(c, o->referenceCount() == 1, "the history kept %d references to the edited object", o->referenceCount() - 1);
         o->release();
         delete doc;
      });
   });
   scenario("regeneration markers", {3, "a marker for one of 2 objects, a change, close, undo, redo; depth 6 / 8"}, [](Ctx & c)
   {
      World w;
      init(w, {{0, 8}, {1, 14}});
      for(int i = 0, depth = tier(6, 8); i < depth; i++)
      {
         int op = c.choose(6);
         if(op < 2)
         {
            c.step("marker for object %d", op);
            w.um->registerRegenerationMarker(w.o[op]);
            if(!w.open)
            {
               w.open = true;
               w.openBefore = w.cur;
               w.openTouched.clear();
            }
            w.openTouched.insert(op);
            w.redo.clear();
         }
         else if(op == 2)change(w, 0, (w.cur[0] + 1) % 3);
         else if(op == 3)close(w);
         else swapStep(c, w, op == 4);
         observe(c, w, op < 2 ? "marker" : op == 2 ? "change" : op == 3 ? "close" : op == 4 ? "undo" : "redo");
      }
   });
   scenario("many steps and changes", {0, "steps, or changes in one step: 64 numbers up to 100000; undone to the beginning and redone, in part and again"}, [](Ctx & c)
   {
      int n = farLengths()[c.choose((int)farLengths().size())], kind = c.choose(3);
      struct Var : public Object
      {
         int64 v = 0;
      };
      TestDoc doc;
      UndoManager* um = doc.undoManager();
      Var* o[2] = {new Var(), new Var()};
      int64 m[2] = {0, 0};
      auto same = [&](int64 a, int64 b, uint32 u, uint32 r, const char* what)
      {
         EXPECT(c, o[0]->v == a && o[1]->v == b, "%d %s, %s: the variables are %lld and %lld, expected %lld and %lld", n, kind ? "changes" : "steps", what, (long long)o[0]->v, (long long)o[1]->v, (long long)a, (long long)b);
         EXPECT(c, um->undoCount() == u && um->redoCount() == r, "%d %s, %s: undoCount() %u, redoCount() %u, expected %u and %u", n, kind ? "changes" : "steps", what, um->undoCount(), um->redoCount(), u, r);
         c.trans();
      };
      if(kind == 0)
      {
         std::vector<std::pair<int64, int64>> h = {{0, 0}};
         for(int i = 0; i < n; i++)
         {
            um->registerChange(o[i % 2], &o[i % 2]->v);
            m[i % 2] = o[i % 2]->v = i + 1;
            um->close();
            h.push_back({m[0], m[1]});
         }
         same(h[n].first, h[n].second, n, 0, "made");
         for(int back : {1, n / 2, n})
         {
            if(back > n)continue;
            for(int i = 1; i <= back; i++)
            {
               EXPECT(c, um->undo(), "undo() of step %d of %d failed", n - i + 1, n);
               EXPECT(c, o[0]->v == h[n - i].first && o[1]->v == h[n - i].second, "undone to step %d of %d: wrong values", n - i, n);
            }
            same(h[n - back].first, h[n - back].second, n - back, back, "undone");
            if(back == n)EXPECT(c, !um->undo(), "undo() beyond the beginning");
            for(int i = back; i-- > 0;)
            {
               EXPECT(c, um->redo(), "redo() failed");
               EXPECT(c, o[0]->v == h[n - i].first && o[1]->v == h[n - i].second, "redone to step %d of %d: wrong values", n - i, n);
            }
            same(h[n].first, h[n].second, n, 0, "redone");
            EXPECT(c, !um->redo(), "redo() beyond the end");
         }
      }
      else
      {
         if(kind == 2)um->openTransaction();
         for(int i = 0; i < n; i++)
         {
            um->registerChange(o[i % 2], &o[i % 2]->v);
            m[i % 2] = o[i % 2]->v = i + 1;
            if(kind == 1)EXPECT(c, um->hasOpenUndoStep() && um->undoCount() == 0, "%d changes: the step is not open", i + 1);
         }
         if(kind == 2)EXPECT(c, um->closeTransaction() == Status::eOK && um->hasOpenUndoStep() == (n > 0), "%d changes in a transaction: no open step", n);
         um->close();
         same(m[0], m[1], n > 0, 0, "made");
         for(int r = 0; r < 2 && n > 0; r++)
         {
            EXPECT(c, um->undo(), "undo() of %d changes failed", n);
            same(0, 0, 0, 1, "undone");
            EXPECT(c, um->redo(), "redo() of %d changes failed", n);
            same(m[0], m[1], 1, 0, "redone");
         }
      }
      um->clearStacks();
      same(m[0], m[1], 0, 0, "cleared");
      o[0]->release();
      o[1]->release();
      c.state(n * 4 + kind);
   });
}
