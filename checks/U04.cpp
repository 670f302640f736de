// EditableObject and Document: the contract of setMember, the changed flag, and the undo manager's life.
#include "undo.hpp"
using namespace jm;
const char* const kProperty = "U04";

namespace
{
   struct Edit : public TestObj
   {
      explicit Edit(Document* d): TestObj(d) {}
      // the seven types setMember supports, 3 values each; value 3 of double is NaN
      Status put(int m, int k)
      {
         switch(m)
         {
            case 0: return setMember(&s, k == 0 ? String("") : k == 1 ? String("x") : String("xy"));
            case 1: return setMember(&i64, k == 0 ? 0 : k == 1 ? INT64_MIN : INT64_MAX);
            case 2: return setMember(&d, k == 0 ? 0. : k == 1 ? -1.5 : k == 2 ? 1e300 : NAN);
            case 3: return setMember(&b, k == 1);
            case 4: return setMember(&u8, (uint8)(k == 0 ? 0 : k == 1 ? 255 : 1));
            case 5: return setMember(&i16, (int16)(k == 0 ? 0 : k == 1 ? -32768 : 256));
            default: return setMember(&v3, k == 0 ? Vertex3(0, 0, 0) : k == 1 ? Vertex3(1, 2, 3) : Vertex3(0, 0, -1));
         }
      }
      std::string show(int m)
      {
         static const int t[] = {14, 8, 11, 0, 2, 3, 13};
         return get(t[m]);
      }
   };
   std::string expected(int m, int k)
   {
      Edit e(nullptr);
      switch(m)
      {
         case 0: e.s = k == 0 ? "" : k == 1 ? "x" : "xy"; break;
         case 1: e.i64 = k == 0 ? 0 : k == 1 ? INT64_MIN : INT64_MAX; break;
         case 2: e.d = k == 0 ? 0. : k == 1 ? -1.5 : 1e300; break;
         case 3: e.b = k == 1; break;
         case 4: e.u8 = k == 0 ? 0 : k == 1 ? 255 : 1; break;
         case 5: e.i16 = k == 0 ? 0 : k == 1 ? -32768 : 256; break;
         default: e.v3 = k == 0 ? Vertex3(0, 0, 0) : k == 1 ? Vertex3(1, 2, 3) : Vertex3(0, 0, -1);
      }
      return e.show(m);
   }
   bool same(int m, int a, int b)
   {
      if(m == 3)return (a == 1) == (b == 1);
      return a == b;
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("setMember", {3, "7 member types, no document / no undo manager / undo manager; every sequence of 3 / 4 sets of 3 values and NaN, each in its own step, undone and redone"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         int env = c.choose(3), m = c.choose(7), n = tier(3, 4);
         TestDoc* doc = env == 0 ? nullptr : new TestDoc();
         if(env == 1)doc->setUndoManager(false);
         UndoManager* um = env == 2 ? doc->undoManager() : nullptr;
         Edit* e = new Edit(doc);
         std::vector<int> vals = {0};
         for(int i = 0; i < n; i++)
         {
            int k = c.choose(m == 2 ? 4 : 3);
            Status st = e->put(m, k);
            bool bad = k == 3, eq = !bad && same(m, vals.back(), k);
            c.trans();
            EXPECT(c, st == (bad ? Status::eInvalidInput : eq ? Status::eNotChanged : Status::eOK), "member %d, value %d after %d: status %d", m, k, vals.back(), (int)st);
            if(um)
            {
               EXPECT(c, um->hasOpenUndoStep() == (st == Status::eOK), "setMember with status %d %s a change", (int)st, um->hasOpenUndoStep() ? "recorded" : "did not record");
               EXPECT(c, doc->isDocumentChanged() == (vals.size() > 1), "document changed flag before close");
               doc->closeUndoStep();
            }
            if(!bad && !eq)vals.push_back(k);
            EXPECT(c, e->show(m) == expected(m, vals.back()), "member %d is '%s', expected '%s'", m, e->show(m).c_str(), expected(m, vals.back()).c_str());
         }
         if(um)
         {
            EXPECT(c, um->undoCount() == vals.size() - 1, "undoCount() %u, expected %zu", um->undoCount(), vals.size() - 1);
            for(size_t i = vals.size() - 1; i-- > 0;)
            {
               EXPECT(c, um->undo() && e->show(m) == expected(m, vals[i]), "undo: member %d is '%s'", m, e->show(m).c_str());
            }
            for(size_t i = 1; i < vals.size(); i++)
            {
               EXPECT(c, um->redo() && e->show(m) == expected(m, vals[i]), "redo: member %d is '%s'", m, e->show(m).c_str());
            }
         }
         c.state(fmt("%d %d %s", env, m, e->show(m).c_str()));
         if(doc)delete doc;
         e->release();
      });
   });
   scenario("range of setMember(int64)", {2, "all value/min/max in -2..2 and the ends of int64, inside and outside a transaction"}, [](Ctx & c)
   {
      static const int64 g[] = {0, 1, -1, 2, -2, INT64_MIN, INT64_MAX};
      int env = c.choose(3);
      int64 v = g[c.choose(7)], lo = g[c.choose(7)], hi = g[c.choose(7)], start = g[c.choose(3)];
      TestDoc* doc = env ? new TestDoc() : nullptr;
      Edit* e = new Edit(doc);
      e->i64 = start;
      if(env == 2)EXPECT(c, e->openTransaction() == Status::eOK && doc->undoManager()->hasOpenTransaction(), "openTransaction()");
      Status a = e->setMember(&e->b, true);
      Status st = e->setMember(&e->i64, v, lo, hi);
      c.trans();
      bool eq = v == start, in = lo <= v && v <= hi;
      Status want = eq ? Status::eNotChanged : in ? Status::eOK : Status::eInvalidInput;
      EXPECT(c, a == Status::eOK && st == want, "setMember(%lld, %lld..%lld) over %lld: status %d, expected %d", (long long)v, (long long)lo, (long long)hi, (long long)start, (int)st, (int)want);
      EXPECT(c, e->i64 == (want == Status::eOK ? v : start), "value %lld", (long long)e->i64);
      EXPECT(c, e->b, "the other member");
      if(env == 2)
      {
         Status ct = e->closeTransaction();
         EXPECT(c, (ct == Status::eOK) == (want != Status::eInvalidInput), "closeTransaction() = %d after status %d", (int)ct, (int)st);
         bool rolled = want == Status::eInvalidInput;
         EXPECT(c, e->b == !rolled, "the other member after closeTransaction()");
         EXPECT(c, e->i64 == (want == Status::eOK ? v : start), "value after closeTransaction(): %lld", (long long)e->i64);
         EXPECT(c, !doc->undoManager()->hasOpenTransaction(), "hasOpenTransaction()");
      }
      else if(!env)EXPECT(c, e->openTransaction() == Status::eOK && e->closeTransaction() == Status::eNotChanged, "transaction without document");
      c.state(fmt("%d %d", env, (int)want));
      if(doc)delete doc;
      e->release();
   });
   scenario("a transaction with rejected values", {2, "all sequences of 4 sets of valid, equal, out of range and not-a-number values in a transaction or two nested ones; the transaction is kept exactly if none was rejected"}, [](Ctx & c)
   {
      bool nested = c.choose(2);
      TestDoc* doc = new TestDoc();
      Edit* e = new Edit(doc);
      e->i64 = 5;
      e->d = 2;
      doc->closeUndoStep();
      bool rejected = false, changed = false, inner = false;
      int64 i64 = 5;
      double d = 2;
      e->openTransaction();
      for(int i = 0; i < 4; i++)
      {
         if(nested && i == 1)e->openTransaction();
         int op = c.choose(6);
         Status st, want = Status::eOK;
         switch(op)
         {
            case 0: st = e->setMember(&e->d, d + 1); d += 1; break;
            case 1: st = e->setMember(&e->d, (double)NAN); want = Status::eInvalidInput; break;
            case 2: st = e->setMember(&e->d, d); want = Status::eNotChanged; break;
            case 3: st = e->setMember(&e->i64, i64 + 1, 0, 100); i64++; break;
            case 4: st = e->setMember(&e->i64, -1, 0, 100); want = Status::eInvalidInput; break;
            default: st = e->setMember(&e->i64, 101, 0, 100); want = Status::eInvalidInput; break;
         }
         c.trans();
         EXPECT(c, st == want, "set %d returns %d instead of %d", op, (int)st, (int)want);
         EXPECT(c, e->d == d && e->i64 == i64, "members after set %d", op);
         rejected |= want == Status::eInvalidInput;
         changed |= want == Status::eOK;
         if(nested && i == 2)
         {
            inner = rejected;
            EXPECT(c, (e->closeTransaction() == Status::eOK) == !inner, "the inner transaction");
            if(inner)i64 = e->i64, d = e->d; // what it leaves behind is the subject of U02
         }
      }
      Status st = e->closeTransaction();
      EXPECT(c, (st == Status::eOK) == !rejected, "closeTransaction() returns %d, a value was %srejected", (int)st, rejected ? "" : "not ");
      if(rejected)EXPECT(c, e->d == 2 && e->i64 == 5, "a rejected transaction left %g and %lld", e->d, (long long)e->i64);
      else
      {
         EXPECT(c, e->d == d && e->i64 == i64, "an accepted transaction left %g and %lld", e->d, (long long)e->i64);
         doc->closeUndoStep();
         EXPECT(c, doc->undoManager()->undoCount() == (changed ? 1u : 0u), "%u steps", doc->undoManager()->undoCount());
      }
      delete doc;
      e->release();
   });
   scenario("the file of a document", {2, "all sequences of 3 of 4 files, document created anew or not"}, [](Ctx & c)
   {
      static const char* const F[] = {"", "/a/b.txt", "c", "/"};
      TestDoc* doc = new TestDoc();
      EXPECT(c, doc->file().isNull() && doc->fileRef()->isNull(), "a new document has a file");
      for(int i = 0; i < 3; i++)
      {
         int k = c.choose(4);
         doc->setFile(File(F[k]));
         c.trans();
         EXPECT(c, doc->file().path() == File(F[k]).path() && doc->fileRef()->path() == File(F[k]).path() && &doc->file() == doc->fileRef(), "the file is %s instead of %s", P(doc->file().path()).c_str(), F[k]);
         EXPECT(c, !doc->isDocumentChanged() && !doc->shouldRegenerate(), "flags");
      }
      delete doc;
   });
   scenario("document", {3, "changed flag, regeneration flag, undo manager on/off; depth 5 / 7"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         TestDoc* doc = new TestDoc();
         Edit* e = new Edit(doc);
         bool changed = false, has = true, open = false;
         int undo = 0, redo = 0;
         bool regen = false;
         EXPECT(c, e->document() == doc, "document()");
         EXPECT(c, e->shouldRegenerate() && !doc->shouldRegenerate(), "a new object is not drawn yet");
         int depth = tier(5, 7);
         for(int i = 0; i < depth; i++)
         {
            switch(c.choose(8))
            {
               case 0:
                  c.step("setUndoManager(true)");
                  doc->setUndoManager(true);
                  if(!has)undo = redo = 0, open = false;
                  has = true;
                  break;
               case 1:
                  c.step("setUndoManager(false)");
                  if(has && open)changed = true; // closes the open step
                  doc->setUndoManager(false);
                  has = false;
                  undo = redo = 0;
                  open = false;
                  break;
               case 2:
                  c.step("change");
                  e->setMember(&e->i64, e->i64 + 1);
                  if(has)open = true, redo = 0;
                  break;
               case 3:
                  c.step("closeUndoStep");
                  doc->closeUndoStep();
                  if(open)
                  {
                     undo++;
                     changed = true;
                     open = false;
                  }
                  break;
               case 4:
                  c.step("saved");
                  doc->setDocumentChanged(false);
                  changed = false;
                  break;
               case 5:
                  c.step("undo");
                  if(!has)c.discard();
                  if(doc->undoManager()->undo() && undo && !open)undo--, redo++, changed = true;
                  break;
               case 6:
                  c.step("redo");
                  if(!has)c.discard();
                  if(doc->undoManager()->redo() && redo && !open)undo++, redo--, changed = true;
                  break;
               case 7:
                  c.step("regenerate");
                  if(regen)doc->regenerationDone();
                  else doc->regenerate();
                  regen = !regen;
                  break;
            }
            c.trans();
            EXPECT(c, doc->hasUndoManager() == has && (doc->undoManager() != nullptr) == has, "hasUndoManager()");
            EXPECT(c, doc->isDocumentChanged() == changed, "isDocumentChanged() is %d", doc->isDocumentChanged());
            EXPECT(c, doc->shouldRegenerate() == regen, "shouldRegenerate()");
            if(has)EXPECT(c, (int)doc->undoManager()->undoCount() == undo && (int)doc->undoManager()->redoCount() == redo && doc->undoManager()->isActive(), "undo manager of the document");
            c.state(fmt("%d%d%d%d%d%d", changed, has, open, undo, redo, regen));
         }
         delete doc;
         e->release();
      });
   });
}
