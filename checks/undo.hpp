// A document with an object holding one variable of every type the undo manager supports.
#pragma once
#include "lib.hpp"

struct TestDoc : public jm::Document
{
   bool saveDocument() override
   {
      return true;
   }
   bool loadDocument() override
   {
      return true;
   }
   jm::Status initNewDocument(jm::Preferences*) override
   {
      return jm::Status::eOK;
   }
};

const int kTypes = 17;
struct TestObj : public jm::EditableObject
{
   explicit TestObj(jm::Document* d): EditableObject(d) {}
   bool b = false;
   int8 i8 = 0;
   uint8 u8 = 0;
   int16 i16 = 0;
   uint16 u16 = 0;
   int32 i32 = 0;
   uint32 u32 = 0;
   int64 integer = 0;
   int64 i64 = 0;
   uint64 u64 = 0;
   float f = 0;
   double d = 0;
   jm::Vertex2 v2;
   jm::Vertex3 v3;
   jm::String s;
   jm::Date date{(int64)0};
   jm::Color color;
   jm::Object* ref = nullptr;

   // values 0 (initial), 1, 2 of each type: extreme ones
   void set(int t, int k)
   {
      switch(t)
      {
         case 0: b = k == 1; break;
         case 1: i8 = k == 0 ? 0 : k == 1 ? -128 : 127; break;
         case 2: u8 = k == 0 ? 0 : k == 1 ? 255 : 128; break;
         case 3: i16 = k == 0 ? 0 : k == 1 ? -32768 : 255; break;
         case 4: u16 = k == 0 ? 0 : k == 1 ? 65535 : 256; break;
         case 5: i32 = k == 0 ? 0 : k == 1 ? INT32_MIN : 65536; break;
         case 6: u32 = k == 0 ? 0 : k == 1 ? 0xffffffffu : 0x10000u; break;
         case 7: integer = k == 0 ? 0 : k == 1 ? INT64_MAX : 255; break;
         case 8: i64 = k == 0 ? 0 : k == 1 ? INT64_MIN : (int64)1 << 33; break;
         case 9: u64 = k == 0 ? 0 : k == 1 ? ~(uint64)0 : (uint64)1 << 33; break;
         case 10: f = k == 0 ? 0.f : k == 1 ? -1e30f : 0.1f; break;
         case 11: d = k == 0 ? 0. : k == 1 ? 1e300 : 0.1; break;
         case 12: v2 = k == 0 ? jm::Vertex2(0, 0) : k == 1 ? jm::Vertex2(1, -2) : jm::Vertex2(1, 1e-12); break;
         case 13: v3 = k == 0 ? jm::Vertex3(0, 0, 0) : k == 1 ? jm::Vertex3(1, -2, 3) : jm::Vertex3(1, 1e-12, 4); break;
         case 14: s = k == 0 ? jm::String("") : k == 1 ? jm::String("one") : jm::String("two and more"); break;
         case 15: date = jm::Date((int64)(k == 0 ? 0 : k == 1 ? -86400000LL * 400 : 1234567890123LL)); break;
         case 16: color = k == 0 ? jm::Color() : k == 1 ? jm::Color::fromRgb(1, 2, 3, 4) : jm::Color::fromCmyk(9, 8, 7, 6); break;
      }
   }
   std::string get(int t) const
   {
      using mc::fmt;
      switch(t)
      {
         case 0: return fmt("%d", b);
         case 1: return fmt("%d", i8);
         case 2: return fmt("%d", u8);
         case 3: return fmt("%d", i16);
         case 4: return fmt("%d", u16);
         case 5: return fmt("%d", i32);
         case 6: return fmt("%u", u32);
         case 7: return fmt("%lld", (long long)integer);
         case 8: return fmt("%lld", (long long)i64);
         case 9: return fmt("%llu", (unsigned long long)u64);
         case 10: return fmt("%a", f);
         case 11: return fmt("%a", d);
         case 12: return fmt("%a %a", v2.x, v2.y);
         case 13: return fmt("%a %a %a", v3.x, v3.y, v3.z);
         case 14: return P(s);
         case 15: return fmt("%lld", (long long)date.time());
         case 16: return fmt("%d %d %d %d %d %d %d %d %d", (int)color.mode(), color.alpha(), color.red(), color.green(), color.blue(),
                                color.cyan(), color.magenta(), color.yellow(), color.mode() == jm::ColorMode::kCmyk ? color.key() : 0);
      }
      return "";
   }
   void reg(jm::UndoManager* um, int t)
   {
      switch(t)
      {
         case 0: um->registerChange(this, &b); break;
         case 1: um->registerChange(this, &i8); break;
         case 2: um->registerChange(this, &u8); break;
         case 3: um->registerChange(this, &i16); break;
         case 4: um->registerChange(this, &u16); break;
         case 5: um->registerChange(this, &i32); break;
         case 6: um->registerChange(this, &u32); break;
         case 7: um->registerChange(this, &integer); break;
         case 8: um->registerChange(this, &i64); break;
         case 9: um->registerChange(this, &u64); break;
         case 10: um->registerChange(this, &f); break;
         case 11: um->registerChange(this, &d); break;
         case 12: um->registerChange(this, &v2); break;
         case 13: um->registerChange(this, &v3); break;
         case 14: um->registerChange(this, &s); break;
         case 15: um->registerChange(this, &date); break;
         case 16: um->registerChange(this, &color); break;
      }
   }
   void change(jm::UndoManager* um, int t, int k)
   {
      reg(um, t);
      set(t, k);
   }
   std::string all() const
   {
      std::string r;
      for(int t = 0; t < kTypes; t++)r += get(t) + "|";
      return r;
   }
};
// An object that keeps two members in step with others whenever it is regenerated, and records what it does.
struct DerivingObj : public TestObj
{
   using TestObj::TestObj;
   int64 inverse = ~(int64)0;
   jm::String doubled;
   void regenerate() override
   {
      TestObj::regenerate();
      jm::UndoManager* um = document()->undoManager();
      if(inverse != ~i64)um->registerChange(this, &inverse), inverse = ~i64;
      jm::String t = s;
      t << s;
      if(!(doubled == t))um->registerChange(this, &doubled), doubled = t;
   }
   bool inStep() const
   {
      jm::String t = s;
      t << s;
      return inverse == ~i64 && doubled == t;
   }
};
inline const char* typeName(int t)
{
   static const char* n[] = {"bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64 (2nd)", "int64", "uint64", "float", "double", "Vertex2", "Vertex3", "String", "Date", "Color"};
   return n[t];
}
