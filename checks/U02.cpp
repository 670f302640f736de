// Transactions are atomic and nest.
#include "undo.hpp"
using namespace jm;
const char* const kProperty = "U02";

namespace
{
   using Snap = std::array<int, 2>;
   struct World
   {
      TestDoc* doc = new TestDoc();
      UndoManager* um = doc->undoManager();
      TestObj* o;
      DerivingObj* deriving = nullptr;
      Snap cur{0, 0}, openBefore{0, 0}, transBefore{0, 0};
      bool open = false, transChanged = false, failed = false;
      std::set<int> statuses; // failures registered in the open transaction
      int level = 0;
      std::vector<std::pair<Snap, Snap>> undo, redo;
      explicit World(bool derive = false)
      {
         if(derive)o = deriving = new DerivingObj(doc);
         else o = new TestObj(doc);
      }
      ~World()
      {
         delete doc;
         o->release();
      }
   };
   const int kType[2] = {8, 14};
   std::string val(int v, int k)
   {
      TestObj ref(nullptr);
      ref.set(kType[v], k);
      return ref.get(kType[v]);
   }
   void observe(mc::Ctx& c, World& w, const char* what)
   {
      c.trans();
      for(int v = 0; v < 2; v++)
      {
         std::string e = val(v, w.cur[v]), g = w.o->get(kType[v]);
         EXPECT(c, g == e, "after %s: variable %d is '%s', expected '%s'", what, v, g.c_str(), e.c_str());
      }
      if(w.deriving)EXPECT(c, w.deriving->inStep(), "after %s: the members derived from the others do not fit them", what);
      EXPECT(c, w.um->undoCount() == w.undo.size(), "after %s: undoCount() %u, expected %zu", what, w.um->undoCount(), w.undo.size());
      EXPECT(c, w.um->redoCount() == w.redo.size(), "after %s: redoCount() %u, expected %zu", what, w.um->redoCount(), w.redo.size());
      EXPECT(c, w.um->hasOpenUndoStep() == w.open, "after %s: hasOpenUndoStep()", what);
      EXPECT(c, w.um->hasOpenTransaction() == (w.level > 0), "after %s: hasOpenTransaction()", what);
      if(w.level > 0)EXPECT(c, (w.um->transactionStatus() != Status::eOK) == w.failed, "after %s: transactionStatus()", what);
      std::string s = mc::fmt("%d %d %d %d %d %d %d %d|", w.cur[0], w.cur[1], w.open, w.level, w.failed, w.transChanged, w.transBefore[0], w.transBefore[1]);
      for(auto& u : w.undo)s += mc::fmt("%d%d%d%d.", u.first[0], u.first[1], u.second[0], u.second[1]);
      s += "/";
      for(auto& u : w.redo)s += mc::fmt("%d%d%d%d.", u.first[0], u.first[1], u.second[0], u.second[1]);
      c.state(s);
   }
   void change(World& w, int v, int k)
   {
      w.o->change(w.um, kType[v], k);
      if(w.deriving)w.deriving->regenerate();
      if(w.level > 0)w.transChanged = true;
      else
      {
         if(!w.open)w.openBefore = w.cur;
         w.open = true;
         w.redo.clear();
      }
      w.cur[v] = k;
   }
   void open(World& w)
   {
      w.um->openTransaction();
      if(w.level++ == 0)
      {
         w.transBefore = w.cur;
         w.transChanged = w.failed = false;
         w.statuses.clear();
      }
   }
   void closeTrans(mc::Ctx& c, World& w)
   {
      Status st = w.um->closeTransaction();
      if(w.level == 0)return;
      if(w.failed)EXPECT(c, w.statuses.count((int)st), "closeTransaction() returned %d although a failure was registered", (int)st);
      else EXPECT(c, st == Status::eOK, "closeTransaction() returned %d although everything succeeded", (int)st);
      if(--w.level > 0)return;
      if(w.failed)w.cur = w.transBefore;
      else if(w.transChanged)
      {
         if(!w.open)w.openBefore = w.transBefore;
         w.open = true;
         w.redo.clear();
      }
   }
   void closeStep(World& w)
   {
      w.um->close();
      if(!w.open)return;
      // changes of a transaction that is still open belong to the next step
      w.undo.push_back({w.openBefore, w.level > 0 ? w.transBefore : w.cur});
      w.open = false;
   }
   void move(mc::Ctx& c, World& w, bool undo)
   {
      auto& from = undo ? w.undo : w.redo;
      auto& to = undo ? w.redo : w.undo;
      bool can = !w.open && w.level == 0 && !from.empty();
      bool r = undo ? w.um->undo() : w.um->redo();
      EXPECT(c, r == can, "%s returned %d, expected %d", undo ? "undo()" : "redo()", r, can);
      if(!can)return;
      to.push_back(from.back());
      from.pop_back();
      w.cur = undo ? to.back().first : to.back().second;
   }
   void fail(World& w, Status s)
   {
      w.um->registerTransactionStatus(s);
      if(w.level == 0)return; // belongs to no transaction
      if(s != Status::eOK && s != Status::eNotChanged)
      {
         w.failed = true;
         w.statuses.insert((int)s);
      }
   }
   void step(mc::Ctx& c, World& w)
   {
      static const Status ss[] = {Status::eInvalidInput, Status::eOK, Status::eNotChanged, Status::eError};
      switch(c.choose(7))
      {
         case 0:
         {
            int v = c.choose(2), k = (w.cur[v] + 1) % 3;
            c.step("change variable %d to value %d", v, k);
            change(w, v, k);
            observe(c, w, "change");
            break;
         }
         case 1:
            c.step("openTransaction");
            open(w);
            observe(c, w, "openTransaction");
            break;
         case 2:
            c.step("closeTransaction");
            closeTrans(c, w);
            observe(c, w, "closeTransaction");
            break;
         case 3:
         {
            int k = c.choose(mc::tier(3, 4));
            c.step("registerTransactionStatus(%d)", (int)ss[k]);
            fail(w, ss[k]);
            observe(c, w, "registerTransactionStatus");
            break;
         }
         case 4:
            c.step("close");
            closeStep(w);
            observe(c, w, "close");
            break;
         case 5:
            c.step("undo");
            move(c, w, true);
            observe(c, w, "undo");
            break;
         case 6:
            c.step("redo");
            move(c, w, false);
            observe(c, w, "redo");
            break;
      }
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("transactions from a new document", {4, "2 variables, 10 operations; depth 6 / 7, everything then closed and undone to the beginning"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w;
         int depth = tier(6, 7);
         for(int i = 0; i < depth; i++)step(c, w);
         while(w.level)closeTrans(c, w);
         observe(c, w, "closing all transactions");
         closeStep(w);
         while(!w.undo.empty())move(c, w, true), observe(c, w, "undoing everything");
         move(c, w, true);
         while(!w.redo.empty())move(c, w, false), observe(c, w, "redoing everything");
      });
   });
   scenario("transactions with history before them", {4, "an open change, one undone and one undoable step, then depth 5 / 6"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w;
         change(w, 0, 1);
         closeStep(w);
         open(w);
         change(w, 1, 1);
         change(w, 0, 2);
         closeTrans(c, w);
         closeStep(w);
         move(c, w, true);
         int start = c.choose(3);
         if(start == 1)change(w, 0, 0);
         if(start == 2)open(w), change(w, 0, 0), change(w, 1, 2);
         c.step("start %d", start);
         observe(c, w, "start");
         int depth = tier(5, 6);
         for(int i = 0; i < depth; i++)step(c, w);
      });
   });
   scenario("objects that change themselves when regenerated", {3, "members derived from the 2 variables are set and recorded by regenerate(); depth 5 / 6, after nothing, after steps, or in a transaction; everything then closed, undone and redone"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w(true);
         int start = c.choose(3);
         if(start)change(w, 0, 1), closeStep(w), change(w, 1, 1), change(w, 0, 2), closeStep(w), move(c, w, true);
         if(start == 2)open(w), change(w, 0, 2), change(w, 1, 2);
         c.step("start %d", start);
         observe(c, w, "start");
         int depth = tier(5, 6);
         for(int i = 0; i < depth; i++)step(c, w);
         while(w.level)closeTrans(c, w);
         observe(c, w, "closing all transactions");
         closeStep(w);
         while(!w.undo.empty())move(c, w, true), observe(c, w, "undoing everything");
         while(!w.redo.empty())move(c, w, false), observe(c, w, "redoing everything");
      });
   });
   scenario("a failure at every place of a nested transaction", {3, "two and three levels, two changes per level before and after, a failure at any one or two of 8 places, or none"}, [](Ctx & c)
   {
      World w;
      int levels = 2 + c.choose(2);
      int f1 = c.choose(9), f2 = c.choose(9);
      bool pre = c.choose(2);
      if(pre)change(w, 0, 1), closeStep(w), change(w, 1, 2);
      int place = 0;
      auto at = [&]
      {
         if(place == f1)fail(w, Status::eInvalidInput);
         if(place == f2)fail(w, Status::eNotAllowed);
         place++;
         observe(c, w, "operation");
      };
      for(int l = 0; l < levels; l++)
      {
         open(w);
         change(w, l & 1, (w.cur[l & 1] + 1) % 3);
         at();
      }
      for(int l = 0; l < levels; l++)
      {
         change(w, 0, (w.cur[0] + 1) % 3);
         at();
         closeTrans(c, w);
         observe(c, w, "closeTransaction");
      }
      // a later transaction is not affected
      open(w);
      change(w, 0, (w.cur[0] + 1) % 3);
      closeTrans(c, w);
      observe(c, w, "later transaction");
      closeStep(w);
      while(!w.undo.empty())move(c, w, true), observe(c, w, "undo");
      while(!w.redo.empty())move(c, w, false), observe(c, w, "redo");
   });
   scenario("a document dropped in the middle", {2, "every history of depth 4, then the document is destroyed with whatever is open"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         World w;
         for(int i = 0; i < 4; i++)step(c, w);
      });
   });
   scenario("deep nesting and long transactions", {0, "nesting up to 40 deep with 0..2 changes per level, or up to 1025 changes in one; a failure nowhere or at 5 depths; then undone and redone"}, [](Ctx & c)
   {
      int shape = c.choose(3), n = shape == 2 ? lengths()[c.choose((int)lengths().size())] : c.choose(41);
      int at = c.choose(6);
      int levels = shape == 2 ? 1 : n, fails = at == 5 ? -1 : levels * at / 4;
      World w;
      int serial = 0;
      auto touch = [&]
      {
         int v = serial++ % 2;
         change(w, v, (w.cur[v] + 1) % 3);
      };
      touch();
      closeStep(w);
      observe(c, w, "before");
      for(int l = 1; l <= levels; l++)
      {
         open(w);
         if(shape)touch();
         if(shape == 2)for(int i = 1; i < n; i++)touch();
         if(l == fails)fail(w, Status::eInvalidInput);
         if(l % 8 == 0)observe(c, w, "nested");
      }
      for(int l = levels; l >= 1; l--)
      {
         if(shape)touch();
         closeTrans(c, w);
         if(l % 8 == 1)observe(c, w, "closing");
      }
      if(w.level == 0)closeStep(w);
      observe(c, w, "closed");
      move(c, w, true);
      observe(c, w, "undone");
      move(c, w, true);
      observe(c, w, "undone again");
      move(c, w, false);
      move(c, w, false);
      observe(c, w, "redone");
      c.state(fmt("%d %d %d", shape, n, at));
   });
}
