// Property and Variant against a model: text, number and type; copies are equal to their source.
#include "lib.hpp"
#include <cstring>
using namespace jm;
const char* const kProperty = "P01";

namespace
{
   uint64_t bits(double d)
   {
      uint64_t r;
      memcpy(&r, &d, 8);
      return r;
   }
   struct Model
   {
      std::string text;
      uint64_t number = 0;
      PropertyType type = PropertyType::kString;
   };
   const char* const TEXT[] = {"", "a", "A"};
   const int64 INT[] = {0, 1, 256, -1, (int64)0x3ff0000000000000LL};
   const double DBL[] = {0, 1, -2.5, 1e300};
   const int SETTERS = 3 + 5 + 4 + 2 + 4;
   // one of the setters, on both sides
   void set(mc::Ctx& c, Property& p, Model& m, int op)
   {
      Status s = Status::eOK;
      if(op < 3)
      {
         s = p.setStringValue(TEXT[op]);
         m.text = TEXT[op];
         m.type = PropertyType::kString;
      }
      else if(op < 8)
      {
         s = p.setIntegerValue(INT[op - 3]);
         m.number = (uint64_t)INT[op - 3];
         m.type = PropertyType::kInteger;
      }
      else if(op < 12)
      {
         s = p.setDoubleValue(DBL[op - 8]);
         m.number = bits(DBL[op - 8]);
         m.type = PropertyType::kDouble;
      }
      else if(op < 14)
      {
         s = p.setBoolValue(op == 13);
         m.number = op == 13;
         m.type = PropertyType::kBoolean;
      }
      else
      {
         s = p.setUnitValue(DBL[op & 1 ? 2 : 1], op < 16 ? "m" : "mm");
         m.number = bits(DBL[op & 1 ? 2 : 1]);
         m.text = op < 16 ? "m" : "mm";
         m.type = PropertyType::kValue;
      }
      EXPECT(c, s == Status::eOK, "a setter returns an error");
   }
   void compare(mc::Ctx& c, const Property& p, const Model& m, const char* what)
   {
      EXPECT(c, p.stringValue() == String(m.text.c_str()), "%s: text '%s' instead of '%s'", what, P(p.stringValue()).c_str(), m.text.c_str());
      EXPECT(c, (uint64_t)p.integerValue() == m.number, "%s: number %llx instead of %llx", what, (unsigned long long)p.integerValue(), (unsigned long long)m.number);
      EXPECT(c, bits(p.doubleValue()) == m.number, "%s: double value differs", what);
      if(m.type == PropertyType::kBoolean)EXPECT(c, p.boolValue() == (m.number == 1), "%s: truth value differs", what);
      EXPECT(c, p.type() == m.type, "%s: type %d instead of %d", what, (int)p.type(), (int)m.type);
   }
   std::string key(const Model& m)
   {
      return mc::fmt("%s %llx %d", m.text.c_str(), (unsigned long long)m.number, (int)m.type);
   }
   const char* const EDITOR[] = {"textfield", "number", "checkbox", "file", "combobox", "value", "dwgcolour", "dwglayer"};
   Property make(int k)
   {
      return Property("id", "group", "name", "hint", EDITOR[k], false, PropertyChangeMode::kItself, true);
   }
}
void defineScenarios()
{
   useLibrary();
   mc::scenario("histories", {2, "all sequences of 4 (thorough 5) of 40 steps on two properties: 18 setters on either, transfer in both directions, to itself, copying"}, [](mc::Ctx & c)
   {
      Property p[2] = {make(0), make(0)};
      Model m[2];
      int n = mc::tier(4, 5);
      for(int i = 0; i < n; i++)
      {
         int op = c.choose(2 * SETTERS + 4);
         c.trans();
         if(op < 2 * SETTERS)set(c, p[op & 1], m[op & 1], op / 2);
         else
         {
            op -= 2 * SETTERS;
            if(op == 0)p[0].setValue(p[1]), m[0] = m[1];
            else if(op == 1)p[1].setValue(p[0]), m[1] = m[0];
            else if(op == 2)p[0].setValue(p[0]);
            else
            {
               Property q(p[0]);
               compare(c, q, m[0], "copy");
               p[1] = q;
               m[1] = m[0];
            }
         }
         for(int j = 0; j < 2; j++)compare(c, p[j], m[j], j ? "second" : "first");
         bool eq = m[0].text == m[1].text && m[0].number == m[1].number;
         EXPECT(c, p[0].isValueEquals(p[1]) == eq && p[1].isValueEquals(p[0]) == eq, "isValueEquals() is %d for values that are %s", !eq, eq ? "equal" : "different");
         EXPECT(c, p[0].isValueEquals(p[0]), "a value differs from itself");
         c.state(key(m[0]) + "|" + key(m[1]));
      }
      EXPECT(c, p[0].id() == String("id") && p[0].group() == String("group") && p[0].name() == String("name") && p[0].hint() == String("hint") && p[0].editor() == String("textfield")
             && !p[0].isReadOnly() && p[0].allowEmpty() && p[0].changeMode() == PropertyChangeMode::kItself, "setting values changes the description");
   });
   mc::scenario("equality", {2, "all pairs of 18 values in 8 editors, with equal and different ids and editors"}, [](mc::Ctx & c)
   {
      int e = c.choose(8), a = c.choose(SETTERS);
      for(int b = 0; b < SETTERS; b++)
      {
         Property p = make(e), q = make(e);
         Model m, n;
         set(c, p, m, a);
         set(c, q, n, b);
         if(m.type != n.type && (m.type == PropertyType::kValue || n.type == PropertyType::kValue))continue;
         bool text = m.text == n.text, number = m.number == n.number, want;
         double x, y;
         memcpy(&x, &m.number, 8);
         memcpy(&y, &n.number, 8);
         bool real = std::fabs(x - y) <= RESABS;
         if(m.type == PropertyType::kValue)want = text && real;
         else if(e == 0 || e == 3 || e == 7)want = text;
         else if(e == 1 || e == 4 || e == 6)want = number;
         else if(e == 2)
         {
            // meaningful for truth values only
            if(m.type != PropertyType::kBoolean || n.type != PropertyType::kBoolean)continue;
            want = number;
         }
         else want = text && real;
         c.trans();
         EXPECT(c, (p == q) == want && (q == p) == want, "editor %s: %d == %d is %d", EDITOR[e], a, b, p == q);
         Property other("id2", "group", "name", "hint", EDITOR[e]), edit("id", "group", "name", "hint", EDITOR[e] == EDITOR[0] ? "number" : "textfield");
         other.setValue(p);
         edit.setValue(p);
         EXPECT(c, !(p == other) && !(other == p) && !(p == edit) && !(edit == p), "properties with different ids or editors are equal");
         // nobody has said what counts for this editor; values that differ in all respects are not equal anyway
         if(text || number)continue;
         Property u("id", "group", "name", "hint", "ruler"), v("id", "group", "name", "hint", "ruler");
         u.setValue(p);
         v.setValue(q);
         EXPECT(c, !(u == v) && !(v == u), "unknown editor: %d equals %d", a, b);
      }
   });
   mc::scenario("description", {1, "all combinations of the flags, the three constructors, icons"}, [](mc::Ctx & c)
   {
      int k = c.choose(3), ro = c.choose(2), empty = c.choose(2), mode = c.choose(3);
      Property p = k == 0 ? Property() : k == 1 ? Property("x") : Property("x", "g", "n", "h", "e", ro, (PropertyChangeMode)mode, empty);
      EXPECT(c, p.id() == String(k ? "x" : "") && p.is(k ? "x" : "") && !p.is("y") && p.name() == String(k == 2 ? "n" : "") && p.group() == String(k == 2 ? "g" : "")
             && p.hint() == String(k == 2 ? "h" : "") && p.editor() == String(k == 2 ? "e" : "") && p.icon() == String(""), "texts of the description differ");
      EXPECT(c, p.isReadOnly() == (k == 2 && ro) && p.allowEmpty() == (k == 2 ? empty == 1 : true) && p.changeMode() == (k == 2 ? (PropertyChangeMode)mode : PropertyChangeMode::kItself), "flags differ");
      compare(c, p, Model(), "new property");
      p.setIcon("i");
      p.setType(PropertyType::kBoolean);
      EXPECT(c, p.icon() == String("i") && p.type() == PropertyType::kBoolean, "icon or type are lost");
   });
   mc::scenario("variants", {2, "all sequences of 3 (thorough 4) of 57 steps on three variants: new values, copies, assignments in all directions"}, [](mc::Ctx & c)
   {
      Variant v[3];
      Model m[3];
      for(auto& x : m)x.type = PropertyType::kInteger;
      int n = mc::tier(3, 4);
      for(int i = 0; i < n; i++)
      {
         int op = c.choose(19), t = c.choose(3);
         c.trans();
         Model x;
         if(op < 3)v[t] = Variant(String(TEXT[op])), x.text = TEXT[op];
         else if(op < 8)v[t] = Variant(INT[op - 3]), x.number = (uint64_t)INT[op - 3], x.type = PropertyType::kInteger;
         else if(op < 12)v[t] = Variant(DBL[op - 8]), x.number = bits(DBL[op - 8]), x.type = PropertyType::kDouble;
         else if(op < 15)
         {
            v[t] = v[op - 12];
            x = m[op - 12];
         }
         else if(op < 18)
         {
            Variant w(v[op - 15]);
            v[t] = w;
            x = m[op - 15];
         }
         else
         {
            v[t] = Variant();
            x.type = PropertyType::kInteger;
         }
         m[t] = x;
         for(int j = 0; j < 3; j++)
         {
            EXPECT(c, v[j].mType == m[j].type, "variant %d has type %d instead of %d", j, (int)v[j].mType, (int)m[j].type);
            EXPECT(c, v[j].toString() == String(m[j].text.c_str()), "variant %d has text '%s' instead of '%s'", j, P(v[j].toString()).c_str(), m[j].text.c_str());
            if(m[j].type == PropertyType::kString)continue;
            EXPECT(c, (uint64_t)v[j].toInt64() == m[j].number && v[j].toInt32() == (int32)m[j].number && bits(v[j].toDouble()) == m[j].number, "variant %d has another number", j);
         }
         c.state("v " + key(m[0]) + "|" + key(m[1]) + "|" + key(m[2]));
      }
   });
}
