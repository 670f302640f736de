// Copies: a copy has the value of the original and shares nothing with it, for every class of values
// of the library.  Two objects live on the heap; every short history of copying, assigning, modifying
// and destroying them is run.  The expected value of an object is that of a fresh object made and
// modified the same way without any copying.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "C05";

// Stack traces of exceptions: every exception has frames of its own, named by the harness.
static int gFrame = 0;
extern "C" char** backtrace_symbols(void* const*, int n)
{
   static char text[4][3][8];
   char** r = (char**)malloc(sizeof(char*) * 3);
   for(int i = 0; i < n && i < 3; i++)
   {
      snprintf(text[gFrame][i], 8, "f%d.%d", gFrame, i);
      r[i] = text[gFrame][i];
   }
   return r;
}
extern "C" int backtrace(void** a, int)
{
   for(int i = 0; i < 3; i++)a[i] = nullptr;
   return 1 + gFrame % 3;
}

namespace
{
   using mc::Ctx;
   using Out = std::string;
   Out S(const String& s)
   {
      return P(s) + "|";
   }
   Out N(double d)
   {
      return mc::fmt("%.17g|", d);
   }
   Out I(long long i)
   {
      return mc::fmt("%lld|", i);
   }
   Out V(const Vertex3& v)
   {
      return N(v.x) + N(v.y) + N(v.z);
   }

   template<class T> struct Kind
   {
      const char* name;
      std::vector<std::function<T*()>> make;
      std::vector<std::function<void(T&)>> mutate;
      std::function<Out(T&)> show;
      std::function<Out(const T&)> cshow; // what may be asked of a constant object
      std::function<Out(T&)> drain; // looked at last: it uses the object up
      size_t kept = 0; // blocks the library keeps by design: the text of the last error in its log
   };

   // how an object came about
   struct Recipe
   {
      int maker;
      std::vector<int> steps;
   };

   template<class T> Out look(const Kind<T>& k, T& t)
   {
      Out r;
      if(k.cshow)r += k.cshow(t);
      if(k.show)r += k.show(t);
      return r;
   }
   template<class T> Out expected(const Kind<T>& k, const Recipe& r)
   {
      std::unique_ptr<T> t(k.make[r.maker]());
      for(int m : r.steps)k.mutate[m](*t);
      return look(k, *t);
   }
   // a function of an application that takes and returns values
   template<class T> T passedOn(const Kind<T>& k, T t, int m)
   {
      if(m >= 0)k.mutate[m](t);
      return t;
   }
   template<class T> struct Holder // a class of an application with a member, copied implicitly
   {
      T member;
      int other = 7;
   };

   template<class T> void history(Ctx& c, const Kind<T>& k, int depth)
   {
      int makers = k.make.size(), mutators = k.mutate.size();
      Recipe rec[2];
      rec[0].maker = c.choose(makers);
      rec[1].maker = c.choose(makers);
      c.step("A: made in way %d, B: made in way %d", rec[0].maker, rec[1].maker);
      std::vector<std::pair<int, int>> ops;
      const int kinds = 6;
      for(int d = 0; d < depth; d++)
      {
         int t = c.choose(2);
         int op = c.choose(kinds + 2 * mutators);
         ops.push_back({t, op});
      }
      expected(k, rec[0]); // whatever the library makes on first use (charsets, its log) is no leak
      mc::leakStart();
      {
         std::unique_ptr<T> slot[2];
         Recipe r[2];
         for(int i = 0; i < 2; i++)
         {
            slot[i].reset(k.make[rec[i].maker]());
            r[i] = rec[i];
         }
         auto check = [&](const char* what)
         {
            for(int i = 0; i < 2; i++)
            {
               Out got = look(k, *slot[i]), want = expected(k, r[i]);
               EXPECT(c, got == want, "%s: %c is %s instead of %s after %s", k.name, 'A' + i, got.c_str(), want.c_str(), what);
            }
            c.trans();
         };
         check("making them");
         for(auto [t, op] : ops)
         {
            int s = 1 - t;
            const char* what;
            if(op == 0)
            {
               what = "replacing one by a copy of the other";
               slot[t].reset(new T(*slot[s]));
               r[t] = r[s];
            }
            else if(op == 1)
            {
               what = "assigning the other one";
               T& back = (*slot[t] = *slot[s]);
               EXPECT(c, &back == slot[t].get(), "%s: an assignment returns another object", k.name);
               r[t] = r[s];
            }
            else if(op == 2)
            {
               what = "assigning it to itself";
               T& same = *slot[t];
               same = *slot[t];
            }
            else if(op == 3)
            {
               what = "copying an object that contains it";
               Holder<T> h = {*slot[s]};
               Holder<T> h2 = h;
               h2 = h;
               h.member = *slot[t];
               slot[t].reset(new T(h2.member));
               r[t] = r[s];
            }
            else if(op == 4)
            {
               what = "exchanging them";
               std::swap(*slot[0], *slot[1]);
               std::swap(r[0], r[1]);
            }
            else if(op == 5)
            {
               what = "putting them into a sequence that grows";
               std::vector<T> v;
               v.push_back(*slot[t]);
               v.push_back(*slot[s]);
               v.push_back(v[0]);
               v.erase(v.begin());
               *slot[t] = v[0];
               *slot[s] = v[1];
               std::swap(r[0], r[1]);
            }
            else if(op < kinds + mutators)
            {
               what = "modifying one";
               k.mutate[op - kinds](*slot[t]);
               r[t].steps.push_back(op - kinds);
            }
            else
            {
               what = "passing one to a function that modifies and returns it";
               int m = op - kinds - mutators;
               T back = passedOn(k, *slot[t], m);
               Recipe x = r[t];
               x.steps.push_back(m);
               Out got = look(k, back), want = expected(k, x);
               EXPECT(c, got == want, "%s: the value returned is %s instead of %s", k.name, got.c_str(), want.c_str());
            }
            check(what);
         }
         if(k.drain)for(int i = 0; i < 2; i++)
            {
               std::unique_ptr<T> f(k.make[r[i].maker]());
               for(int m : r[i].steps)k.mutate[m](*f);
               Out got = k.drain(*slot[i]), want = k.drain(*f);
               EXPECT(c, got == want, "%s: %c still gives %s instead of %s", k.name, 'A' + i, got.c_str(), want.c_str());
            }
      }
      mc::leakStop();
      EXPECT(c, mc::leakBlocks() <= k.kept, "%s: %zu blocks (%zu bytes) allocated during the run are still there, up to %zu may be", k.name, mc::leakBlocks(), mc::leakBytes(), k.kept);
      std::string st = k.name;
      for(auto [t, op] : ops)st += (char)(t * 100 + op);
      c.state(mc::hash(st, rec[0].maker * 16 + rec[1].maker));
   }

   // --- the classes
   int gObj[4];
   String* big(int n, const char* piece)
   {
      String* s = new String();
      for(int i = 0; i < n; i++)s->append(String(piece));
      return s;
   }
   Kind<String> strings()
   {
      return {"String",
         {
            [] {return new String();}, [] {return new String("a");}, [] {return new String("Kopie \xc3\xa4", Charset::forName("UTF-8"));},
            [] {return big(40, "0123456789");}
         },
         {
            [](String & s) {s.append(String("xyz"));}, [](String & s) {s.clear();}, [](String & s) {if(s.size())s.setCharAt(0, Char('Q'));},
            [](String & s) {s.hashCode();}, [](String & s) {if(s.size())s.deleteCharAt(s.size() - 1);}
         },
         [](String & s) {return I(s.hashCode());},
         [](const String & s)
         {
            ByteArray b = s.toCString(Charset::forName("UTF-8"));
            return S(s) + I(s.size()) + I(s.constHashCode()) + PB(b.constData(), b.size()) + I(s.indexOf(Char('a')));
         }};
   }
   Kind<StringList> lists()
   {
      return {"StringList",
         {
            [] {return new StringList();}, [] {return new StringList(2);},
            [] {auto l = new StringList(); for(const char* s : {"c", "a", "b"})l->append(String(s)); return l;},
            [] {auto l = new StringList(String("one")); l->reserve(100); return l;}
         },
         {
            [](StringList & l) {l.append(String("new"));}, [](StringList & l) {l.remove(String("a"));}, [](StringList & l) {if(l.size())l.set(l.size() - 1, String("set"));},
            [](StringList & l) {l.sort();}, [](StringList & l) {l.clear();}, [](StringList & l) {if(l.size())l[0].append(String("+"));}
         },
         nullptr,
         [](const StringList & l)
         {
            Out r = I(l.size());
            for(int64 i = 0; i < l.size(); i++)r += S(l.get(i));
            return r + S(l.join(Char(','))) + I(l.contains(String("a")));
         }};
   }
   Kind<ByteArray> bytes()
   {
      return {"ByteArray",
         {
            [] {return new ByteArray();}, [] {return new ByteArray(3, 0x41);}, [] {return new ByteArray((const int8*)"terminated");},
            [] {auto b = new ByteArray(9, 1); b->resize(2); return b;}
         },
         {
            [](ByteArray & b) {b.resize(b.size() + 1);}, [](ByteArray & b) {if(b.size())b.resize(b.size() - 1);}, [](ByteArray & b) {b.fill(0x7e);},
            [](ByteArray & b) {if(b.size())b.data()[b.size() - 1] = 9;}
         },
         nullptr,
         [](const ByteArray & b)
         {
            return I(b.size()) + I(b.isNull()) + (b.size() ? PB(b.constData(), b.size() + 1) : Out());
         }};
   }
   Kind<CharArray> chars()
   {
      static auto of = [](const char* t)
      {
         auto a = new CharArray((int64)strlen(t));
         for(size_t i = 0; t[i]; i++)a->buffer[i] = Char(t[i]);
         return a;
      };
      return {"CharArray", {[] {return new CharArray();}, [] {return of("a");}, [] {return of("characters");}},
         {[](CharArray & a) {if(a.length)a.buffer[0] = Char('Z');}, [](CharArray & a) {if(a.length)a.buffer[a.length - 1] = Char('Y');}},
         nullptr,
         [](const CharArray & a)
         {
            Out r = I(a.length);
            for(int64 i = 0; i < a.length; i++)r += I(a.buffer[i].unicode());
            return r;
         }};
   }
   template<class E> Kind<Array<E>> arrays(const char* name, E(*gen)(int), Out(*text)(const E&))
   {
      auto of = [gen](int n)
      {
         auto a = new Array<E>(n);
         for(int i = 0; i < n; i++)a->set(i, gen(i));
         return a;
      };
      return {name, {[] {return new Array<E>();}, [of] {return of(1);}, [of] {return of(5);}},
         {[gen](Array<E>& a) {if(a.size())a.set(0, gen(8));}, [gen](Array<E>& a) {if(a.size())a[a.size() - 1] = gen(9);}},
         nullptr,
         [text](const Array<E>& a)
         {
            Out r = I(a.size());
            for(int64 i = 0; i < (int64)a.size(); i++)r += text(a.get(i));
            return r;
         }};
   }
   Kind<FloatArray> floats()
   {
      return {"FloatArray", {[] {return new FloatArray();}, [] {return new FloatArray({1.5f});}, [] {return new FloatArray({3, 1, 2, -4});}},
         {[](FloatArray & a) {a.Sort();}, [](FloatArray & a) {if(a.Length())a.Set(0, 99);}, [](FloatArray & a) {if(a.Length())a[a.Length() - 1] = -1;}},
         nullptr,
         [](const FloatArray & a)
         {
            Out r = I(a.Length());
            for(uint32 i = 0; i < a.Length(); i++)r += N(a.Get(i));
            return r;
         }};
   }
   template<class E> Kind<Stack<E>> stacks(const char* name, E(*gen)(int), Out(*text)(const E&))
   {
      auto of = [gen](int n)
      {
         auto a = new Stack<E>();
         for(int i = 0; i < n; i++)a->push(gen(i));
         return a;
      };
      return {name, {[of] {return of(0);}, [of] {return of(1);}, [of] {return of(4);}},
         {
            [gen](Stack<E>& a) {a.push(gen(8));}, [](Stack<E>& a) {if(a.hasElements())a.pop();}, [](Stack<E>& a) {a.reverse();}, [](Stack<E>& a) {a.clear();},
            [gen](Stack<E>& a) {if(a.hasElements())*a.topRef() = gen(9);}
         },
         [text](Stack<E>& a) // the elements, taken out and put back
         {
            Out r;
            std::vector<E> e;
            while(a.hasElements())e.push_back(a.pop());
            for(auto& x : e)r += text(x);
            for(size_t i = e.size(); i-- > 0;)a.push(e[i]);
            return r;
         },
         [text](const Stack<E>& a) {return I(a.size()) + (a.hasElements() ? text(a.top()) : Out());}};
   }
   template<class T> Out iterated(T& t) // the keys in some order
   {
      std::multiset<Out> s;
      std::unique_ptr<Iterator> it(t.keys());
      for(int n = 0; it->hasNext() && n < 1000; n++)s.insert(S(*reinterpret_cast<String*>(it->next())));
      Out r;
      for(auto& x : s)r += x;
      return r;
   }
   Kind<Hashtable> tables()
   {
      static auto of = [](int n)
      {
         auto t = new Hashtable();
         for(int i = 0; i < n; i++)t->put(String(mc::fmt("key%d", i).c_str()), &gObj[i % 4]);
         return t;
      };
      return {"Hashtable", {[] {return of(0);}, [] {return of(2);}, [] {return of(60);}},
         {
            [](Hashtable & t) {t.put(String("key1"), &gObj[3]);}, [](Hashtable & t) {t.put(String("more"), &gObj[0]);}, [](Hashtable & t) {t.remove(String("key0"));},
            [](Hashtable & t) {t.clear();},
            [](Hashtable & t) {for(int i = 0; i < 12; i++)t.put(String(mc::fmt("many%d", i).c_str()), &gObj[i % 4]);} // grows
         },
         [](Hashtable & t) {return iterated(t);},
         [](const Hashtable & t)
         {
            Out r = I(t.size()) + I(t.isEmpty());
            for(const char* k : {"key0", "key1", "key59", "more", "many11"})
            {
               void* p = t.get(String(k));
               r += I(p ? (int*)p - gObj : -1) + I(t.containsKey(String(k)));
            }
            return r + I(t.containsValue(&gObj[3]));
         }};
   }
   template<class T> Out prefValues(const T& p)
   {
      Out r = I(p.size());
      for(const char* k : {"a", "b", "c", "key40"})
      {
         r += S(p.value(String(k), String("-"))) + I(p.hasValue(String(k)));
      }
      return r + I(p.valueInt(String("b"), -1)) + I(p.valueBool(String("c"), false)) + N(p.valueDouble(String("b"), 0.5));
   }
   template<class T> std::vector<std::function<void(T&)>> prefChanges()
   {
      return {[](T & p) {p.setValue(String("a"), String("other"));}, [](T & p) {p.setValue(String("b"), (int64)42);}, [](T & p) {p.setValue(String("c"), true);},
         [](T & p) {p.setValue(String("a"), String());}
      };
   }
   template<class T> T* prefFill(T* p, int n)
   {
      if(n > 0)p->setValue(String("a"), String("text"));
      if(n > 1)p->setValue(String("c"), false);
      for(int i = 2; i < n; i++)p->setValue(String(mc::fmt("key%d", i).c_str()), (int64)i);
      return p;
   }
   Kind<Preferences> preferences()
   {
      return {"Preferences", {[] {return new Preferences();}, [] {return prefFill(new Preferences(), 2);}, [] {return prefFill(new Preferences(), 50);}},
         prefChanges<Preferences>(), [](Preferences & p) {return iterated(p);}, prefValues<Preferences>};
   }
   Kind<I18nBundle> bundles()
   {
      return {"I18nBundle", {[] {return new I18nBundle(String("de"));}, [] {return prefFill(new I18nBundle(String("")), 3);}},
         prefChanges<I18nBundle>(), [](I18nBundle & p) {return iterated(p);},
         [](const I18nBundle & p) {return prefValues(p) + S(p.translate(String("a"))) + S(p.translate(String("x")));}};
   }
   Kind<Matrix> matrices()
   {
      static auto of = [](int m, int n)
      {
         auto a = new Matrix(m, n);
         for(int i = 0; i < m; i++)for(int j = 0; j < n; j++)a->set(i, j, i * 10 + j + 0.5);
         return a;
      };
      return {"Matrix", {[] {return of(1, 1);}, [] {return of(2, 3);}, [] {return of(4, 4);}, [] {return of(3, 2);}},
         {
            [](Matrix & a) {a.set(0, 0, -7);}, [](Matrix & a) {a.transpose();}, [](Matrix & a) {a.zeros();}, [](Matrix & a) {a.add(a.m - 1, a.n - 1, 3);}
         },
         nullptr,
         [](const Matrix & a)
         {
            Out r = I(a.m) + I(a.n);
            for(int64 i = 0; i < a.m; i++)for(int64 j = 0; j < a.n; j++)r += N(a.get(i, j));
            return r + N(a.norm(MatrixNorm::kNorm1)) + I(a.nonZeroElementCount());
         }};
   }
   Kind<Vector> vectors()
   {
      static auto of = [](int m)
      {
         auto a = new Vector(m);
         for(int i = 0; i < m; i++)a->data[i] = i + 1.25;
         return a;
      };
      return {"Vector", {[] {return of(1);}, [] {return of(3);}, [] {return of(6);}},
         {[](Vector & a) {a.data[0] = -7;}, [](Vector & a) {a.normalize();}, [](Vector & a) {a.ones();}, [](Vector & a) {a.zeros();}},
         nullptr,
         [](const Vector & a)
         {
            Out r = I(a.m);
            for(int64 i = 0; i < a.m; i++)r += N(a.data[i]);
            return r + N(a.abs());
         }};
   }
   Kind<Nurbs> curves()
   {
      static auto of = [](int n, double w)
      {
         std::vector<Vertex3> p;
         std::vector<double> k, weights;
         for(int i = 0; i < n; i++)
         {
            p.push_back(Vertex3(i, i % 2, i * i));
            weights.push_back(i == 1 ? w : 1);
         }
         for(int i = 0; i < n + 3; i++)k.push_back(i < 3 ? 0 : i >= n ? n - 2 : i - 2);
         return new Nurbs(2, p.data(), n, k.data(), n + 3, weights.data(), n);
      };
      return {"Nurbs", {[] {return of(3, 1);}, [] {return of(5, 2);}, [] {return new Nurbs();}}, {},
         [](Nurbs & n)
         {
            Out r = I(n.knotCount()) + I(n.controlPointCount());
            if(!n.knotCount())return r;
            for(double t : {0.0, 0.25, 0.75, 1.0})r += V(n.point(t));
            return r + N(n.start()) + N(n.end());
         },
         [](const Nurbs & n)
         {
            Out r = I(n.knotCount());
            for(uint32 i = 0; i < n.knotCount(); i++)r += N(n.knot(i));
            return r;
         }};
   }
   Kind<Date> dates()
   {
      return {"Date", {[] {return new Date((int64)0);}, [] {return new Date(2024, Date::FEBRUARY, 29, 23, 59, 58, 999);}, [] {return new Date((int64) - 1);}},
         {[](Date & d) {d.setTime(d.isEmpty() ? 4711 : d.time() + 86400001);}, [](Date & d) {d.setTime(Date::EMPTY);}},
         nullptr,
         [](const Date & d)
         {
            return d.isEmpty() ? Out("empty") : I(d.time()) + I(d.year()) + I(d.month()) + I(d.date()) + I(d.milliseconds()) + S(d.toString()) + I(d.compareTo(Date((int64)5)));
         }};
   }
   Kind<DateFormatter> formatters()
   {
      return {"DateFormatter",
         {
            [] {return new DateFormatter(String());}, [] {return new DateFormatter(String("yyyy"));}, [] {return new DateFormatter(String("dd.MM.yyyy 'um' HH:mm:ss.SSS"));}
         }, {}, nullptr,
         [](const DateFormatter & f) {return S(f.format(Date(2024, Date::FEBRUARY, 29, 23, 59, 58, 999)));}};
   }
   Kind<Color> colours()
   {
      return {"Color", {[] {return new Color();}, [] {return new Color(Color::fromGrey(100, 7));}, [] {return new Color(Color::fromRgb(1, 2, 3));}, [] {return new Color(Color::fromCmyk(9, 8, 7, 6, 5));}},
         {
            [](Color & k) {k.setAlpha(k.alpha() + 1);}, [](Color & k) {k.toRgb();}, [](Color & k) {k.setMode(ColorMode::kCmyk); k.setCyan(1); k.setMagenta(2); k.setYellow(3); k.setKey(4);},
            [](Color & k) {k.toGreyScale();}
         },
         nullptr,
         [](const Color & k)
         {
            Out r = I((int)k.mode()) + I(k.alpha());
            if(k.mode() == ColorMode::kGrey)r += I(k.grey());
            else if(k.mode() == ColorMode::kRgb)r += I(k.red()) + I(k.green()) + I(k.blue());
            else r += I(k.cyan()) + I(k.magenta()) + I(k.yellow()) + I(k.key());
            return r;
         }};
   }
   Out all(const Property& p)
   {
      Out r = S(p.id()) + S(p.group()) + S(p.name()) + S(p.hint()) + S(p.editor()) + S(p.icon()) + I(p.isReadOnly()) + I(p.allowEmpty()) + I((int)p.changeMode()) + I((int)p.type());
      switch(p.type())
      {
         case PropertyType::kInteger: r += I(p.integerValue()); break;
         case PropertyType::kDouble: r += N(p.doubleValue()); break;
         case PropertyType::kBoolean: r += I(p.boolValue()); break;
         default: r += S(p.stringValue());
      }
      return r;
   }
   Kind<Property> properties()
   {
      return {"Property",
         {
            [] {auto p = new Property(String("id")); p->setType(PropertyType::kInteger); p->setIntegerValue(1LL << 40); return p;},
            [] {auto p = new Property(String("i"), String("g"), String("n"), String("h"), String("e"), true, PropertyChangeMode::kOthers, false); p->setType(PropertyType::kString); p->setStringValue(String("value")); return p;}
         },
         {
            [](Property & p) {p.setIcon(String("icon"));}, [](Property & p) {p.setType(PropertyType::kDouble); p.setDoubleValue(0.1);},
            [](Property & p) {p.setType(PropertyType::kBoolean); p.setBoolValue(true);}, [](Property & p) {p.setType(PropertyType::kString); p.setStringValue(String("text"));}
         },
         nullptr, all};
   }
   Kind<Variant> variants()
   {
      return {"Variant", {[] {return new Variant();}, [] {return new Variant((int64) - 5);}, [] {return new Variant(2.5);}, [] {return new Variant(String("text"));}},
         {
            [](Variant & v) {v.mTextValue.append(String("+"));}, [](Variant & v) {v = Variant(1e300);}, [](Variant & v) {v = Variant(String("new"));}
         },
         nullptr,
         [](const Variant & v)
         {
            return I((int)v.mType) + (v.mType == PropertyType::kInteger ? I(v.toInt64()) + I(v.toInt32()) : v.mType == PropertyType::kDouble ? N(v.toDouble()) : Out()) + S(v.toString());
         }};
   }
   Kind<Exception> exceptions()
   {
      return {"Exception",
         {
            [] {gFrame = 0; return new Exception(String("first"));}, [] {gFrame = 1; return new Exception(String(""));}, [] {gFrame = 2; return new Exception(String("the third"));}
         },
         {
            [](Exception & e) // thrown and caught, by reference and by value
            {
               try
               {
                  throw e;
               }
               catch(Exception& x)
               {
                  try
                  {
                     throw;
                  }
                  catch(Exception y)
                  {
                     e = y;
                  }
               }
            }
         },
         nullptr,
         [](const Exception & e) {return S(e.errorMessage()) + S(e.GetStrackTrace());}, nullptr, 1};
   }
   Kind<SAXAttributes> attributes()
   {
      return {"SAXAttributes",
         {
            [] {return new SAXAttributes();}, [] {auto a = new SAXAttributes(); a->addAttribute("", "k", "k", "v"); return a;},
            [] {auto a = new SAXAttributes(); for(int i = 0; i < 9; i++)a->addAttribute("", String::valueOf(i), String::valueOf(i), String::valueOf(i * i)); return a;}
         },
         {
            [](SAXAttributes & a) {a.addAttribute("", "more", "more", "1.5");}, [](SAXAttributes & a) {a.addAttribute("", "k", "k", "true");}
         },
         nullptr,
         [](const SAXAttributes & a)
         {
            Out r = I(a.count());
            for(uint32 i = 0; i < a.count(); i++)r += S(a.qualifiedName(i)) + S(a.value(i));
            return r + S(a.value(String("k"))) + I(a.hasValue(String("more"))) + I(a.indexOf(String("3"))) + N(a.valueAsDouble(String("more")));
         }};
   }
   Kind<File> files()
   {
      return {"File that is not opened",
         {
            [] {return new File();}, [] {return new File(String("/"));}, [] {return new File(String("/dev"), String("n\xc3\xbcll.txt"));}, [] {return new File(File(String("/dev")), String("null"));}
         },
         {[](File & f) {f = File(String("/dev/full"));}, [](File & f) {f = File();}},
         nullptr,
         [](const File & f)
         {
            Out r = I(f.isNull());
            if(!f.isNull())r += S(f.absolutePath()) + S(f.name()) + S(f.parent()) + S(f.extension()) + I(f.exists()) + I(f.isDirectory()) + I(f.compareTo(File(String("/dev/full"))));
            return r;
         }};
   }
   Kind<Resource> resources()
   {
      return {"Resource", {[] {return new Resource(String("no such resource"));}, [] {return new Resource(String("another/one"));}},
         {[](Resource & r) {r = Resource(String("third"));}}, nullptr,
         [](const Resource & r) {return I(r.exists()) + I(r.size());}};
   }
   Kind<StringTokenizer> tokenizers()
   {
      return {"StringTokenizer",
         {
            [] {return new StringTokenizer(String("a,b;c"), String(",;"), true);}, [] {return new StringTokenizer(String("one two  three"), String(" "), false);}, [] {return new StringTokenizer(String(), String(","), false);}
         },
         {[](StringTokenizer & t) {if(t.hasNext())t.next();}, [](StringTokenizer & t) {while(t.hasNext())t.next();}},
         [](StringTokenizer & t) {return I(t.hasNext()) + I(t.hasNext());}, nullptr,
         [](StringTokenizer & t)
         {
            Out r;
            for(int i = 0; i < 20 && t.hasNext(); i++)r += S(t.next());
            return r;
         }};
   }
   LinkedList* gList = nullptr;
   Kind<LinkedListIterator> iterators()
   {
      return {"LinkedListIterator", {[] {return new LinkedListIterator(gList);}, [] {auto i = new LinkedListIterator(gList); i->next(); return i;}},
         {[](LinkedListIterator & i) {if(i.hasNext())i.next();}, [](LinkedListIterator & i) {while(i.hasNext())i.next();}},
         [](LinkedListIterator & i)
         {
            Out r = I(i.hasNext());
            if(i.hasNext())r += S(*static_cast<String*>(i.seek()));
            return r;
         }, nullptr,
         [](LinkedListIterator & i)
         {
            Out r;
            for(int n = 0; n < 20 && i.hasNext(); n++)r += S(*static_cast<String*>(i.next()));
            return r;
         }};
   }
   Kind<ZipEntry> entries()
   {
      return {"ZipEntry", {[] {return new ZipEntry(String("a.txt"));}, [] {auto e = new ZipEntry(String("dir/")); e->setUncompressedSize(77); return e;}},
         {[](ZipEntry & e) {e.setUncompressedSize(e.uncompressedSize() + 1000000);}}, nullptr,
         [](const ZipEntry & e) {return S(e.name()) + I(e.uncompressedSize()) + I(e.isDirectory());}};
   }
   template<class T> Kind<T> plain(const char* name, std::vector<std::function<T*()>> make, std::vector<std::function<void(T&)>> change, std::function<Out(const T&)> text)
   {
      return {name, make, change, nullptr, text};
   }
   Out vertex2(const Vertex2& v)
   {
      return N(v.x) + N(v.y);
   }
   Out point(const Point& v)
   {
      return N(v.x()) + N(v.y());
   }
   Out size(const Size& v)
   {
      return N(v.width()) + N(v.height());
   }
   Out rect(const Rect& r)
   {
      return point(r.origin()) + size(r.size()) + N(r.right()) + N(r.bottom()) + I(r.isEmpty());
   }
   Out extents(const Extents& e)
   {
      return I(e.isValid()) + (e.isValid() ? V(e.minPoint()) + V(e.maxPoint()) : Out());
   }
   int64 number(int i)
   {
      return i * 1000003LL - 5;
   }
   Out numberText(const int64& i)
   {
      return I(i);
   }
   String text(int i)
   {
      return String(mc::fmt("text number %d", i).c_str());
   }
   Out textText(const String& s)
   {
      return S(s);
   }
   int* pointer(int i)
   {
      return &gObj[i % 4];
   }

   template<class T> void add(const Kind<T>& kind, int quick, int thorough)
   {
      auto k = std::make_shared<Kind<T>>(kind);
      std::string* bound = new std::string(mc::fmt("%zu ways of making, %zu ways of modifying; all histories of 1 to %d / %d operations of 2 objects", k->make.size(), k->mutate.size(), quick, thorough));
      mc::scenario(k->name, {4, bound->c_str()}, [k, quick, thorough](Ctx & c)
      {
         int depth = 1 + c.choose(mc::tier(quick, thorough));
         history(c, *k, depth);
      });
   }
}

void defineScenarios()
{
   useLibrary();
   mc::onWorkerStart([]
   {
      gList = new LinkedList(new String("owner"));
      for(int i = 0; i < 4; i++)gList->add(new String(String::valueOf(i)), nullptr);
   });
   const int q = 2, t = 3;
   add(strings(), q, t);
   add(lists(), q, t);
   add(bytes(), q, t);
   add(chars(), q + 1, t);
   add(arrays<int64>("Array of numbers", number, numberText), q, t);
   add(arrays<String>("Array of strings", text, textText), q, t);
   add(arrays<int*>("Array of pointers", pointer, [](int* const & p) {return I(p - gObj);}), q, t);
   add(floats(), q + 1, t);
   add(stacks<int64>("Stack of numbers", number, numberText), q, t);
   add(stacks<String>("Stack of strings", text, textText), q, t);
   add(tables(), q, t);
   add(preferences(), q, t);
   add(bundles(), q, t);
   add(matrices(), q, t);
   add(vectors(), q, t);
   add(curves(), q + 1, t);
   add(dates(), q + 1, t);
   add(formatters(), q + 1, t);
   add(colours(), q, t);
   add(properties(), q, t);
   add(variants(), q, t);
   add(exceptions(), q + 1, t);
   add(attributes(), q + 1, t);
   add(files(), q, t);
   add(resources(), q + 1, t);
   add(tokenizers(), q + 1, t);
   add(iterators(), q + 1, t);
   add(entries(), q + 1, t);
   add(plain<Vertex2>("Vertex2", {[] {return new Vertex2();}, [] {return new Vertex2(1.5, -2);}},
   {[](Vertex2 & v) {v += Vertex2(3, 4);}, [](Vertex2 & v) {v.rotate(1);}}, vertex2), q + 1, t);
   add(plain<Vertex3>("Vertex3", {[] {return new Vertex3();}, [] {return new Vertex3(1.5, -2, 1e300);}},
   {[](Vertex3 & v) {v -= Vertex3(3, 4, 5);}, [](Vertex3 & v) {v.rotateZ(1);}}, V), q + 1, t);
   add(plain<Point>("Point", {[] {return new Point(0, 0);}, [] {return new Point(1.5, -2);}},
   {[](Point & v) {v += Point(3, 4);}, [](Point & v) {v.setX(9);}, [](Point & v) {v.rY() = 8;}}, point), q, t);
   add(plain<Size>("Size", {[] {return new Size(0, 0);}, [] {return new Size(1.5, -2);}},
   {[](Size & v) {v.setWidth(3);}, [](Size & v) {v.rHeight() = 8;}}, size), q + 1, t);
   add(plain<Rect>("Rect", {[] {return new Rect(0, 0, 0, 0);}, [] {return new Rect(1.5, -2, 10, 20);}},
   {[](Rect & v) {v.setWidth(3);}, [](Rect & v) {v.move(Point(3, 4));}, [](Rect & v) {v.unionWith(Rect(-5, -5, 2, 2));}}, rect), q, t);
   add(plain<Extents>("Extents", {[] {return new Extents();}, [] {auto e = new Extents(); e->add(Vertex3(1, 2, 3)); return e;}},
   {[](Extents & e) {e.add(Vertex3(-4, 5, 60));}, [](Extents & e) {e.add(Vertex2(9, -9));}}, extents), q + 1, t);
   add(plain<Char>("Char", {[] {return new Char();}, [] {return new Char((uint16)0xffff);}}, {[](Char & k) {k = k.toLowerCase();}, [](Char & k) {k = Char('A');}},
   [](const Char & k) {return I(k.unicode());}), q, t);
}
