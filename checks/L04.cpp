// mc: tsan ALL
// mc: link -rdynamic -Wl,-z,now
// mc: extra sched.cpp
// Threads that use objects of their own, or read the same ones, do not disturb each other.
#include "lib.hpp"
#include "sched.hpp"
#include "undo.hpp"
#include "fastexc.hpp"
#include <iostream>
#include <unistd.h>
using namespace jm;
const char* const kProperty = "L04";

namespace
{
   using mc::fmt;
   typedef std::string R;
   struct Null : public std::streambuf
   {
      int overflow(int c) override
      {
         return c;
      }
      std::streamsize xsputn(const char*, std::streamsize n) override
      {
         return n;
      }
   };
   R S(const String& s)
   {
      return P(s) + ";";
   }
   R N(double d)
   {
      return fmt("%.17g;", d);
   }
   R V(const Vertex3& v)
   {
      return N(v.x) + N(v.y) + N(v.z);
   }
   R B(ByteArray b)
   {
      return PB(b.constData(), (size_t)b.size()) + ";";
   }
   std::string gDir[3];
   struct Sax : public SAXParser
   {
      R r;
      void characters(const String& s) override
      {
         r += "T" + S(s);
      }
      void startElement(const String&, const String&, const String& q, const SAXAttributes& a) override
      {
         r += "S" + S(q);
         for(uint32 i = 0; i < a.count(); i++)r += S(a.qualifiedName(i)) + S(a.value(i));
      }
      void endElement(const String&, const String&, const String& q) override
      {
         r += "E" + S(q);
      }
   };
   struct Letter : public Object
   {
      char c;
      explicit Letter(char c_): c(c_) {}
      bool equals(const Object* o) const override
      {
         auto* e = dynamic_cast<const Letter*>(o);
         return e && e->c == c;
      }
   };
   // who: 0 or 1, makes the values of the two threads different
   struct Op
   {
      const char* name;
      R(*f)(int who);
   };
   void put32(std::string& s, uint32 v)
   {
      for(int i = 0; i < 4; i++)s += (char)(v >> (8 * i));
   }
   std::string catalogue(const char* to)
   {
      std::string a = "alpha", b = to, head;
      put32(head, 0x950412de);
      put32(head, 0);
      put32(head, 1);
      put32(head, 28);
      put32(head, 36);
      put32(head, 0);
      put32(head, 44);
      put32(head, (uint32)a.size());
      put32(head, 44);
      put32(head, (uint32)b.size());
      put32(head, 44 + (uint32)a.size() + 1);
      return head + a + '\0' + b + '\0';
   }
   R diff(const char* a, const char* b)
   {
      std::vector<std::unique_ptr<Letter>> k;
      R r;
      {
         DiffDistance dd;
         for(const char* p = a; *p; p++)k.emplace_back(new Letter(*p)), dd.addU(k.back().get());
         for(const char* p = b; *p; p++)k.emplace_back(new Letter(*p)), dd.addV(k.back().get());
         DiffBacktrace* first = dd.solve();
         r = fmt("%lld;", (long long)dd.distance());
         first->print();
         r += fmt("%d", (int)first->operation());
      }
      return r;
   }
   const Op OPS[] =
   {
      {
         "strings", [](int w) -> R
         {
            String s(w ? "Zwei Worte" : "one word and more"), t = s;
            t << " " << s.toUpperCase() << s.toLowerCase() << (int64)(w + 41) << 1.5;
            t = t.replace('o', 'p');
            t.insert(3, "ins");
            return S(t) + S(t.substring(2, 9)) + fmt("%lld %lld %d %lld;", (long long)t.indexOf("o"), (long long)t.hashCode(), t.equals(s), (long long)t.compareTo(s)) + S(t.trim());
         }
      },
      {
         "text of numbers", [](int w) -> R
         {
            R r;
            for(double d : {0.1, 123456.789, 1e300, -2.5e-9})r += S(String::valueOf(d + w));
            r += S(String::valueOf((int64)(1234567890123LL + w))) + S(String::valueOf((double)w + 0.125, 3, false)) + S(String::valueOf((int64)-77 - w));
            r += N(String(w ? "3.25e4" : "-17.125").toDouble()) + fmt("%lld;", (long long)String(w ? "987654321" : "-12").toInt());
            r += S(String("%1 of %2").arg(String(w ? "a" : "b")).arg(String("c")));
            return r;
         }
      },
      {
         "tokens", [](int w) -> R
         {
            StringTokenizer t(w ? "a,b;c" : "x y,z", ",; ", true);
            R r;
            while(t.hasNext())r += S(t.next());
            StringList l = String(w ? "q:r:s" : "u:v").split(':');
            for(int64 i = 0; i < l.size(); i++)r += S(l.get(i));
            l.append("k");
            l.sort();
            return r + S(l.get(0));
         }
      },
      {
         "encodings", [](int w) -> R
         {
            R r;
            const char* names[] = {"UTF-8", "ISO-8859-1", "Windows-1252", "UTF-16LE", "UTF-16BE", "MacRoman", "ASCII"};
            String s(w ? "\xc3\xa9t\xc3\xa9 \xe2\x82\xac" : "na\xc3\xafve 12");
            for(const char* n : names)
            {
               Charset* cs = Charset::forName(n);
               if(!cs)
               {
                  r += "-";
                  continue;
               }
               ByteArray b = s.toCString(cs);
               r += B(b) + S(String(ByteArray(b), cs));
            }
            r += B(s.toCString());
            return r;
         }
      },
      {
         "arrays of bytes and numbers", [](int w) -> R
         {
            ByteArray a(10, (uint8)(w + 1)), b;
            b = a;
            b.resize(12);
            b.set(10, 9);
            b.set(11, 3);
            ByteArray c = b;
            c[2] = 77;
            c.sort();
            Array<int> x(4);
            for(int i = 0; i < 4; i++)x.set(i, i * w);
            Stack<int64> st;
            st.push(w + 5);
            st.push(7);
            int64 top = st.pop();
            return B(b) + B(c) + fmt("%d %d %lld;", x[2], (int)x.size(), (long long)top);
         }
      },
      {
         "hash tables", [](int w) -> R
         {
            Hashtable t;
            R r;
            for(int i = 0; i < 20; i++)
            {
               t.put(String::valueOf((int64)(i + w)), new String(String::valueOf((int64)(i * (w + 2)))));
            }
            delete(String*)t.remove(String::valueOf((int64)(3 + w)));
            for(int i = 0; i < 22; i++)
            {
               String* o = (String*)t.get(String::valueOf((int64)i));
               r += o ? S(*o) : "-";
               delete o;
            }
            return r + fmt("%lld", (long long)t.size());
         }
      },
      {
         "lists and undo", [](int w) -> R
         {
            TestDoc doc;
            UndoManager* um = doc.undoManager();
            R r;
            TestObj* o = new TestObj(&doc);
            o->change(um, 8, 1 + w);
            o->change(um, 14, 2 - w);
            um->close();
            o->change(um, 8, 0);
            um->close();
            um->undo();
            r += o->all();
            um->undo();
            um->redo();
            um->openTransaction();
            o->change(um, 14, 0);
            um->registerTransactionStatus(Status::eInvalidInput);
            um->closeTransaction();
            r += o->all();
            o->release();
            TestObj e[] = {TestObj(nullptr), TestObj(nullptr), TestObj(nullptr)};
            LinkedList l(e);
            for(TestObj& i : e)l.add(&i, nullptr);
            l.remove(l.first(), nullptr);
            r += fmt("%d", l.iterator().hasNext());
            l.clear(nullptr);
            return r + fmt("%lld", (long long)l.size());
         }
      },
      {
         "objects", [](int w) -> R
         {
            Object* o = new TestObj(nullptr);
            for(int i = 0; i < w + 2; i++)o->retain();
            int64 n = o->referenceCount();
            for(int i = 0; i < w + 2; i++)o->release();
            o->setHighBit(w);
            R r = fmt("%lld %lld %d;", (long long)n, (long long)o->referenceCount(), o->highBit()) + S(o->displayName());
            o->release();
            return r;
         }
      },
      {
         "Base64, URLs, CRC", [](int w) -> R
         {
            uint8 d[] = {1, 2, 3, (uint8)(w + 200), 5};
            int64 n = 5;
            uint8* e = Base64::encode(d, n);
            R r((char*)e, (size_t)n);
            uint32 m = (uint32)n;
            uint8* f = Base64::decode(e, m);
            r += PB(f, m) + fmt("%d;", CRC::crc8(7, d, 5));
            delete[] e;
            delete[] f;
            return r + S(URLEncode(String(w ? "a b&c" : "%1/\xc3\xa9")));
         }
      },
      {
         "compressing and decompressing", [](int w) -> R
         {
            std::string t;
            for(int i = 0; i < 60; i++)t += fmt("%d,", i * (w + 3));
            Deflater d;
            d.reset();
            d.setInput((uint8*)t.data(), (int64)t.size());
            uint8* z = nullptr;
            int64 n = 0;
            d.deflate(z, n);
            Inflater inf;
            inf.SetInput(z, n);
            uint8* o = nullptr;
            int64 m = 0;
            inf.Inflate(o, m);
            R r((char*)o, (size_t)m);
            delete[] z;
            delete[] o;
            return r;
         }
      },
      {
         "decompressing a fixed block", [](int w) -> R
         {
            // "aaaaaaaaab" and "hello hello hello" by zlib
            static const unsigned char A[] = {0x78, 0x9c, 0x4b, 0x84, 0x83, 0x24, 0x00, 0x14, 0xe1, 0x03, 0xcb};
            static const unsigned char H[] = {0x78, 0x9c, 0xcb, 0x48, 0xcd, 0xc9, 0xc9, 0x57, 0xc8, 0x40, 0x27, 0x00, 0x3a, 0xc2, 0x06, 0x5d};
            Inflater inf;
            inf.SetInput((uint8*)(w ? H : A), w ? sizeof H : sizeof A);
            uint8* o = nullptr;
            int64 m = 0;
            R r;
            if(threw([&] {inf.Inflate(o, m);}))r = "refused";
            else r.assign((char*)o, (size_t)m);
            delete[] o;
            return r;
         }
      },
      {
         "serialised numbers", [](int w) -> R
         {
            uint8 b[64];
            memset(b, 0, sizeof b);
            MemoryStream ms(b, 64, false);
            ms.open(FileMode::kReadWrite);
            R r;
            for(uint8 i = 0; i < 10; i++)
            {
               uint8 x = (uint8)(i * 3 + w);
               ms.write(&x, 1);
            }
            ms.seek(2);
            uint8 t[4];
            ms.read(t, 4);
            r = PB(t, 4) + fmt("%lld;", (long long)ms.position());
            ms.close();
            uint8 q[8];
            serializeBEInt32(q, 0, 0x1020304 + w);
            serializeLEDouble(q, 0, 1.5 + w);
            return r + PB(q, 8) + N(deserializeLEDouble(q, 0));
         }
      },
      {
         "writing XML", [](int w) -> R
         {
            std::vector<uint8> mem(4096);
            MemoryStream ms(mem.data(), 4096);
            ms.open(FileMode::kWrite);
            R r;
            {
               XMLWriter x(&ms);
               x.startDocument();
               x.startIndent();
               x.startElement("e");
               x.writeAttribute("n", w ? String("<&>") : String("v"));
               x.writeAttribute("i", (int32)w);
               x.writeAttribute("d", 0.5 + w);
               x.startElement("f");
               x.writeCData(w ? "text & more" : "t");
               x.endElement();
               x.endElement();
               x.endDocument();
            }
            return R((char*)mem.data(), (size_t)ms.position());
         }
      },
      {
         "parsing XML", [](int w) -> R
         {
            Sax s;
            s.parse(w ? String("<?xml version='1.0'?><a x='1' y=\"&lt;\"><b/>text &#65;<![CDATA[<&]]></a>") : String("<r><!-- c --><q k='&amp;&quot;'>  one  </q>two</r>"));
            return s.r;
         }
      },
      {
         "parsing XML within a parser", [](int w) -> R
         {
            struct Outer : public Sax
            {
               void startElement(const String& u, const String& l, const String& q, const SAXAttributes& a) override
               {
                  Sax::startElement(u, l, q, a);
                  Sax in;
                  in.parse(String("<in v='2'>t</in>"));
                  r += "(" + in.r + ")";
               }
            } s;
            s.parse(w ? String("<a x='1'><b y='&lt;z'/>text</a>") : String("<r>one<q/></r>"));
            return s.r;
         }
      },
      {
         "preferences", [](int w) -> R
         {
            Preferences p, q;
            String path((gDir[w] + "/p").c_str());
            p.setValue("a.b", w ? String("x=\\y\n") : String(" v "));
            p.setValue("n", (int64)(w + 7));
            p.setValue("d", 1.25 * (w + 1));
            p.setValue("t", true);
            p.save(File(path));
            q.load(File(path));
            return S(q.value("a.b")) + fmt("%lld %d;", (long long)q.valueInt("n", 0), q.valueBool("t", false)) + N(q.valueDouble("d", 0)) + S(q.value("z", "none"));
         }
      },
      {
         "translations", [](int w) -> R
         {
            std::string d = catalogue(w ? "beta" : "gamma");
            MemoryStream ms((uint8*)&d[0], (int64)d.size(), false);
            I18nBundle b("de");
            b.appendMo(&ms);
            return S(b.translate("alpha")) + S(b.translate("omega"));
         }
      },
      {
         "files", [](int w) -> R
         {
            std::string dir = gDir[w];
            File f(String((dir + "/file.txt").c_str()));
            R r;
            f.open(FileMode::kWrite);
            std::string t = w ? "line 1\nline two\r\nthree" : "first\n\nthird\n";
            f.write((uint8*)&t[0], (int64)t.size());
            f.close();
            f.open(FileMode::kRead);
            r += fmt("%lld;", (long long)f.size());
            ByteArray b;
            f.readFully(b, f.size());
            r += B(b);
            f.close();
            File d(String(dir.c_str()));
            r += S(f.name()) + S(f.parent()) + S(f.extension()) + fmt("%d%d%d;", f.exists(), d.isDirectory(), d.canRead());
            File e(d, "sub");
            e.makeDirectory();
            r += fmt("%d", e.exists());
            e.remove();
            f.remove();
            return r + fmt("%d%d", e.exists(), f.exists());
         }
      },
      {
         "archives", [](int w) -> R
         {
            File f(String((gDir[w] + "/a.zip").c_str()));
            {
               ZipEntry one("a.txt"), two("dir/b.txt");
               ZipOutputFile z(&f);
               z.open();
               for(int i = 0; i < 2; i++)
               {
                  ZipEntry* e = i ? &two : &one;
                  z.putNextEntry(e);
                  uint8 d[] = {'x', 'y', (uint8)('0' + w), (uint8)('0' + i)};
                  z.write(d, 0, 4);
                  z.closeEntry();
               }
               z.close();
            }
            R r;
            ZipFile z(&f);
            z.open();
            LinkedListIterator it = z.entryIterator();
            while(it.hasNext())
            {
               ZipEntry* e = (ZipEntry*)it.next();
               Stream* s = z.stream(e);
               uint8 b[4] = {0, 0, 0, 0};
               s->open(FileMode::kRead);
               s->read(b, 4);
               s->close();
               r += S(e->name()) + PB(b, 4);
               delete s;
            }
            z.close();
            return r;
         }
      },
      {
         "dates", [](int w) -> R
         {
            Date d((uint16)(2004 + w), 2, 29 - w, 12, 34, 56, 789);
            R r = S(d.toString()) + fmt("%lld %d %d;", (long long)d.time(), (int)d.day(), (int)d.dayOfYear());
            d.setTime(d.time() + 400LL * 86400000);
            DateFormatter f(w ? "yyyy-MM-dd'T'HH:mm:ss.SSS" : "EEEE, d. MMMM yy h:mm a");
            return r + S(f.format(d)) + S(DateFormatter::format("D w", d));
         }
      },
      {
         "colours", [](int w) -> R
         {
            Color c = Color::fromRgb(10 + w, 200, 30, 128), d = Color::fromCmyk(1, 2, 3 + w, 4);
            float x, y, z;
            c.hsvModel(x, y, z);
            Color f = c, g = d, h = c;
            f.toGreyScale();
            g.toRgb();
            h.toCmyk();
            Color i = Color::FromHsv(x, y, z), j = interpolate(c, i, 0.25f), k = blend(c, i, 100);
            return N(x) + N(y) + N(z) + fmt("%d %d %d %d %d %d %d %d", f.grey(), g.red(), g.blue(), h.key(), h.cyan(), c.alpha(), j.green(), k.red());
         }
      },
      {
         "matrices", [](int w) -> R
         {
            Matrix m(3, 3), i = Matrix::generate3x3RotationZMatrix(0.5 + w);
            for(int a = 0; a < 3; a++)for(int b = 0; b < 3; b++)m.set(a, b, a * b + w + (a == b ? 3 : 0));
            Matrix p = m * i, q = m;
            double det = 0;
            m.det(det);
            q.inverse();
            Matrix e = q * m;
            R r = N(det) + N(m.norm(MatrixNorm::kNorm1)) + N(m.trace());
            for(int a = 0; a < 3; a++)r += N(p.get(a, 1)) + N(std::round(e.get(a, 1) * 1e6) + 0.0);
            Matrix o = ocsMatrix(Vertex3(0.1 + w, 0.2, 1));
            o.transpose();
            Vector v = m.eigen();
            return r + N(o.get(0, 0)) + N(o.get(1, 2)) + V(o * Vertex3(1, 2, 3));
         }
      },
      {
         "geometry", [](int w) -> R
         {
            Vertex3 a(1, 2, 3 + w), b(0, 1, 0), n(0, 0, 1);
            R r = V(intersectionPointLineAndPlane(Vertex3(0, 0, 0), n, a, Vertex3(1, 1, -1), true)) + V(closestPointOnPlane(a, Vertex3(0, 0, 0), n)) + N(distancePointToPoint(a, b));
            Rect q(1, 2, 3, 4 + w);
            Extents x;
            x.add(a);
            x.add(b);
            q.shiftLeft(2);
            a.rotate(0.5, b);
            return r + N(q.width()) + N(q.right()) + V(x.delta()) + V(a.normalized()) + N(a.abs());
         }
      },
      {
         "curves", [](int w) -> R
         {
            Vertex3 p[] = {Vertex3(1, 0, w), Vertex3(1, 1, 0), Vertex3(0, 1, 0)};
            double k[] = {0, 0, 0, 1, 1, 1}, x[] = {1, std::sqrt(0.5), 1};
            Nurbs n(2, p, 3, k, 6, x, 3);
            R r;
            for(double t : {0., 0.25, 0.5, 0.9})r += V(n.point(t));
            return r;
         }
      },
      {
         "differences", [](int w) -> R
         {
            return w ? diff("abcbda", "bdcaba") : diff("kitten", "sitting");
         }
      },
      {
         "numerals", [](int w) -> R
         {
            return S(Integer::toHexString(48879 + w)) + S(Integer::toRomanString(1994 + w)) + S(Integer::toLatinAlphabetString(700 + w))
                   + fmt("%lld %d %d;", (long long)Integer::fromHex(w ? "BEEF" : "1f"), (int)Integer::digits(12345 + w), (int)ceilPowerOf2(17 + w)) + N(roundFrac(1.23456 + w, (int64)3))
                   + fmt("%lld %lld", (long long)divFloor(-7 - w, 2), (long long)modFloor(-7 - w, 4));
         }
      },
      {
         "points in the plane", [](int w) -> R
         {
            Point p(1, 2 + w), q(3, -1), m = p.cWiseMin(q), n = 2.0 * (p + q);
            Size z(3, 4 + w);
            Vertex2 v(3, 4 + w), u(1, 0);
            return N(m.x()) + N(m.y()) + N(n.x()) + N(n.y()) + N(v.abs()) + N(z.width()) + N(z.height()) + N((v + u).x);
         }
      },
      {
         "properties", [](int w) -> R
         {
            Property p("id", "group", "name", "hint", "text", false, PropertyChangeMode::kItself, true);
            R r;
            p.setStringValue(String(w ? "text" : "12"));
            r += S(p.stringValue());
            p.setIntegerValue(5 + w);
            r += S(p.stringValue()) + fmt("%lld;", (long long)p.integerValue());
            p.setDoubleValue(0.5 + w);
            r += S(p.stringValue());
            Property q = p;
            return r + S(q.stringValue()) + S(q.name());
         }
      },
      {
         "exceptions and the log", [](int w) -> R
         {
            R r;
            try
            {
               throw Exception(w ? "first" : "second");
            }
            catch(Exception& e)
            {
               r = S(e.errorMessage());
            }
            System::log(w ? "a message" : "another", w ? LogLevel::kWarning : LogLevel::kInformation);
            return r;
         }
      },
      {
         "autoreleased objects", [](int w) -> R
         {
            String* s = new String(w ? "x" : "y");
            s->retain();
            s->autorelease();
            R r = S(*s);
            s->release();
            System::autoreleasePool()->drain();
            return r;
         }
      },
   };
   const int kOps = sizeof OPS / sizeof *OPS;
   char* gAlone[kOps][2];

   // objects that both threads read and nobody changes
   struct Shared
   {
      String s = "Text 12 \xc3\xa9 with more words", n = "-12.5e2", num = "4711", same = "Text 12 \xc3\xa9 with more words";
      Date d = Date((uint16)2004, 2, 29, 12, 34, 56, 789), e = Date((uint16)2005, 1, 2, 3, 4, 5, 6);
      DateFormatter f = DateFormatter("yyyy-MM-dd 'T' EEEE, MMMM H:m:s.S a");
      Hashtable t;
      ByteArray b = ByteArray(20, 7);
      Array<int> a = Array<int>(3);
      Color c = Color::fromRgb(10, 200, 30, 128), k = Color::fromCmyk(1, 2, 3, 4);
      Matrix m = Matrix(3, 3), h = Matrix(4, 4);
      Vertex3 v = Vertex3(1, 2, 3), w = Vertex3(-1, 0.5, 2);
      Extents x;
      Rect r = Rect(1, 2, 3, 4);
      Property p = Property("id", "group", "name", "hint", "12", false, PropertyChangeMode::kItself, true);
      Preferences q;
      I18nBundle i = I18nBundle("de");
      Letter el[3] = {Letter('a'), Letter('b'), Letter('c')};
      LinkedList l = LinkedList(el);
      StringList sl;
      std::unique_ptr<Nurbs> nurbs;
      std::unique_ptr<File> file;
      Shared()
      {
         for(int j = 0; j < 12; j++)t.put(String::valueOf((int64)j), &s);
         for(int j = 0; j < 3; j++)
         {
            a.set(j, j + 5);
            for(int z = 0; z < 3; z++)m.set(j, z, j * z + 1 + (j == z ? 2 : 0));
            l.add(el + j, nullptr);
            sl.append(String::valueOf((int64)j));
         }
         for(int j = 0; j < 4; j++)for(int z = 0; z < 4; z++)h.set(j, z, j == z ? 2 : z == 3 ? 1 : 0);
         x.add(v);
         x.add(w);
         q.setValue("a.b", String("x"));
         q.setValue("n", (int64)7);
         std::string d = catalogue("beta");
         MemoryStream ms((uint8*)&d[0], (int64)d.size(), false);
         i.appendMo(&ms);
         Vertex3 pt[] = {Vertex3(1, 0, 0), Vertex3(1, 1, 0), Vertex3(0, 1, 0)};
         double kn[] = {0, 0, 0, 1, 1, 1}, wt[] = {1, std::sqrt(0.5), 1};
         nurbs.reset(new Nurbs(2, pt, 3, kn, 6, wt, 3));
         file.reset(new File(String((gDir[0] + "/dir/file.txt").c_str())));
      }
      ~Shared()
      {
         l.clear(nullptr);
      }
   };
   struct Reader
   {
      const char* name;
      R(*f)(const Shared& o);
   };
   const Reader READERS[] =
   {
      {
         "a text: comparing and searching", [](const Shared & o) -> R
         {
            return fmt("%d%d%d%d%d ", o.s.equals(o.same), o.s == o.same, o.s.equalsIgnoreCase(o.n), o.s.startsWith("Text"), o.s.endsWith("words")) + fmt("%d %d ", o.s.compareTo(o.n) > 0, o.s < o.same)
            + fmt("%lld %lld %lld %lld %d", (long long)o.s.indexOf("12"), (long long)o.s.indexOf(Char('e'), 3), (long long)o.s.lastIndexOf(Char('e')), (long long)o.s.constHashCode(), (int)o.s.charAt(3).unicode());
         }
      },
      {
         "a text: parts and other forms", [](const Shared & o) -> R
         {
            String t = o.s;
            StringTokenizer k(o.s, " ", false);
            R r = S(t) + S(o.s.substring(2, 7)) + S(o.s.toUpperCase()) + S(o.s.toLowerCase()) + S(o.s.replace('e', 'f')) + S(o.s.trim()) + B(o.s.toCString()) + S(o.s + o.n);
            while(k.hasNext())r += S(k.next());
            return r;
         }
      },
      {
         "a text: its number", [](const Shared & o) -> R
         {
            return N(o.n.toDouble()) + fmt("%lld", (long long)o.num.toInt());
         }
      },
      {
         "a date", [](const Shared & o) -> R
         {
            Date t = o.d;
            return S(o.d.toString()) + fmt("%lld %lld %lld %lld %lld %d;", (long long)o.d.time(), (long long)o.d.year(), (long long)o.d.month(), (long long)o.d.date(), (long long)o.d.dayOfYear(), (int)o.d.compareTo(o.e)) + S(t.toString()) + fmt("%lld", (long long)o.e.utcHours());
         }
      },
      {
         "a date formatter", [](const Shared & o) -> R
         {
            return S(o.f.format(o.d)) + S(o.f.format(o.e));
         }
      },
      {
         "a hash table", [](const Shared & o) -> R
         {
            R r;
            for(int i = 0; i < 14; i++)r += fmt("%d%d", o.t.containsKey(String::valueOf((int64)i)), o.t.get(String::valueOf((int64)i)) == &o.s);
            return r + fmt("%lld %d", (long long)o.t.size(), o.t.containsValue((void*)&o.s));
         }
      },
      {
         "bytes and arrays", [](const Shared & o) -> R
         {
            ByteArray b = o.b;
            return B(b) + fmt("%d %lld %d %d", o.b.get(3), (long long)o.b.size(), o.a.get(1), (int)o.a.size());
         }
      },
      {
         "colours", [](const Shared & o) -> R
         {
            float h, s, v;
            o.c.hsvModel(h, s, v);
            Color d = o.c, e = interpolate(o.c, o.k, 0.5f), f = blend(o.c, o.k, 77);
            return N(h) + N(s) + N(v) + fmt("%d %d %d %d %d", o.c.red(), o.k.key(), o.k.green(), e.red(), f.blue()) + fmt("%d %d", d == o.c, o.c.isWhite());
         }
      },
      {
         "matrices", [](const Shared & o) -> R
         {
            double d = 0;
            o.m.det(d);
            Matrix n = o.m, p = o.m * n, q = o.m + n;
            return N(d) + N(o.m.trace()) + N(o.m.norm(MatrixNorm::kNormInf)) + N(p.get(1, 1)) + N(q.get(2, 2)) + V(o.h.trans(o.v)) + N(o.h.transAngle(0.5)) + fmt("%d", (int)o.m.nonZeroElementCount());
         }
      },
      {
         "points and boxes", [](const Shared & o) -> R
         {
            return V(o.v + o.w) + V(o.v.normalized()) + N(o.v.abs()) + V(o.v.crossProduct(o.w)) + V(o.x.delta()) + N(o.r.width()) + N(distancePointToPoint(o.v, o.w)) + V(closestPointOnPlane(o.v, o.w, Vertex3(0, 0, 1)));
         }
      },
      {
         "a property", [](const Shared & o) -> R
         {
            Property p = o.p;
            return S(o.p.stringValue()) + S(o.p.id()) + S(o.p.name()) + fmt("%lld %d %d", (long long)o.p.integerValue(), o.p.isValueEquals(p), (int)o.p.type());
         }
      },
      {
         "preferences", [](const Shared & o) -> R
         {
            return S(o.q.value("a.b")) + S(o.q.value("z", "none")) + fmt("%lld %d", (long long)o.q.valueInt("n", 0), o.q.hasValue("a"));
         }
      },
      {
         "translations", [](const Shared & o) -> R
         {
            return S(o.i.translate("alpha")) + S(o.i.translate("omega"));
         }
      },
      {
         "lists", [](const Shared & o) -> R
         {
            int n = 0;
            LinkedListIterator it = o.l.iterator();
            while(it.hasNext())n += it.next() != nullptr;
            return fmt("%d %d %d;", n, (int)o.l.size(), o.l.first() != o.l.last()) + S(o.sl.get(1)) + fmt("%d", (int)o.sl.size());
         }
      },
      {
         "a curve", [](const Shared & o) -> R
         {
            const Nurbs& n = *o.nurbs;
            return N(n.knot(3)) + fmt("%d", (int)n.knotCount());
         }
      },
      {
         "a file that is not opened", [](const Shared & o) -> R
         {
            const File& f = *o.file;
            return S(f.name()) + S(f.parent()) + S(f.extension()) + fmt("%d", f.exists());
         }
      },
   };
   const int kReaders = sizeof READERS / sizeof *READERS;
   char* gReadAlone[kReaders];

   void init()
   {
      for(int i = 0; i < 3; i++)
      {
         gDir[i] = mc::scratch() + fmt("/t%d", i);
         mkdir(gDir[i].c_str(), 0700);
      }
      static Null null;
      std::cout.rdbuf(&null);
      std::cerr.rdbuf(&null);
      sched::setup([] { System::init(""); System::autoreleasePool(); });
      sched::warmUp([]
      {
         for(int round = 0; round < 2; round++)for(int i = 0; i < kOps; i++)for(int w = 0; w < 2; w++)
               {
                  R r = OPS[i].f(w);
                  if(round)continue;
                  gAlone[i][w] = strdup(r.c_str());
                  if(getenv("MC_SHOW"))fprintf(stderr, "%s: %s\n", OPS[i].name, r.c_str());
               }
         Shared o;
         for(int i = 0; i < kReaders; i++)
         {
            if(getenv("MC_SHOW"))fprintf(stderr, "%s\n", READERS[i].name);
            R r = READERS[i].f(o);
            gReadAlone[i] = strdup(r.c_str());
            if(getenv("MC_SHOW"))fprintf(stderr, "%s: %s\n", READERS[i].name, r.c_str());
         }
      });
   }
   sched::Bounds bounds()
   {
      sched::Bounds b;
      b.races = true;
      b.preemptions = mc::tier(3, 4);
      b.timeouts = 0;
      b.maxPoints = 200000;
      return b;
   }
}

void defineScenarios()
{
   using namespace mc;
   mc::onWorkerStart(init);
   scenario("two threads, objects of their own", {2, "every pair of 31 groups of operations on all classes; a data race is looked for in every order of the synchronisation with up to 3 / 4 preemptions"}, [](Ctx & c)
   {
      int a = c.choose(kOps), b = c.choose(kOps);
      if(b > a)return;
      c.step("%s | %s", OPS[a].name, OPS[b].name);
      sched::run(c, bounds(), [&]
      {
         for(int k = 0; k < 2; k++)
         {
            int t = k ? b : a;
            sched::spawn([ =, &c]
            {
               R r = OPS[t].f(k);
               SEXPECT(r == gAlone[t][k], "%s in thread %d gives %s instead of %s", OPS[t].name, k + 1, r.c_str(), gAlone[t][k]);
            });
         }
         sched::join(1);
         sched::join(2);
      });
      c.state(fmt("%d %d %lu", a, b, sched::accesses()));
   });
   scenario("two threads read one object", {2, "every pair of 16 groups of operations that only read, on objects that both threads know and nobody changes; as above"}, [](Ctx & c)
   {
      int a = c.choose(kReaders), b = c.choose(kReaders);
      if(b > a)return;
      c.step("%s | %s", READERS[a].name, READERS[b].name);
      sched::run(c, bounds(), [&]
      {
         Shared o;
         for(int k = 0; k < 2; k++)
         {
            int t = k ? b : a;
            sched::spawn([ =, &c, &o]
            {
               R r = READERS[t].f(o);
               SEXPECT(r == gReadAlone[t], "%s in thread %d gives %s instead of %s", READERS[t].name, k + 1, r.c_str(), gReadAlone[t]);
            });
         }
         sched::join(1);
         sched::join(2);
      });
      c.state(fmt("%d %d %lu", a, b, sched::accesses()));
   });
   scenario("what is made for several threads", {2, "every pair of 12 programs on one shared object, autorelease pool, thread, mutex and the log, in two threads; as above"}, [](Ctx & c)
   {
      struct Body : public Thread
      {
         Mutex* m;
         int* n;
         int runs = 0;
         void count()
         {
            lock();
            runs++;
            unlock();
         }
         void run() override
         {
            count();
            while(isAlive())sleep();
            m->lock();
            ++*n;
            m->unlock();
         }
      };
      const int kPrograms = 12;
      int a = c.choose(kPrograms), b = c.choose(kPrograms);
      if(b > a)return;
      // one controller of the thread
      if(a == b && a == 6)return;
      static const char* const kName[] = {"retain, use, release", "retain, autorelease, drain", "autorelease a new object", "drain", "isAlive()", "wakeUp()", "interrupt and start again", "lock and count", "log an error", "log with date", "the thread's own lock", "setHighBit()"};
      c.step("%s | %s", kName[a], kName[b]);
      auto bd = bounds();
      bd.preemptions = mc::tier(2, 3);
      sched::run(c, bd, [&]
      {
         Mutex m;
         int n = 0, want = 0;
         Object* o = new TestObj(nullptr);
         AutoreleasePool* pool = System::autoreleasePool();
         Body* t = new Body();
         t->m = &m;
         t->n = &n;
         t->start();
         auto program = [&](int p)
         {
            switch(p)
            {
               case 0: o->retain(); S(o->displayName()); o->release(); break;
               case 1: o->retain(); o->autorelease(); pool->drain(); break;
               case 2: (new TestObj(nullptr))->autorelease(); break;
               case 3: pool->drain(); break;
               case 4: (void)t->isAlive(); break;
               case 5: t->wakeUp(); break;
               case 6: t->interrupt(); t->start(); break;
               case 7: m.lock(); n++; m.unlock(); break;
               case 8: System::log("a", LogLevel::kError); break;
               case 9: System::logEnableDate(true); System::log("b", LogLevel::kInformation); System::logEnableDate(false); break;
               case 10: t->count(); break;
               default: o->setHighBit(true); o->setHighBit(false);
            }
         };
         want = (a == 7) + (b == 7) + 1 + (a == 6) + (b == 6);
         int one = sched::spawn([&] {program(a);}), two = sched::spawn([&] {program(b);});
         sched::join(one);
         sched::join(two);
         t->interrupt();
         SEXPECT(n == want, "%d sections counted %d", want, n);
         SEXPECT(!t->isAlive(), "isAlive() after interrupt()");
         pool->drain();
         SEXPECT(o->referenceCount() == 1, "%d owners instead of one", (int)o->referenceCount());
         o->release();
         t->release();
      });
      c.state(fmt("%d %d %lu", a, b, sched::accesses()));
   });
}
