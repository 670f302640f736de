// XMLWriter: what is written is well-formed and is read back as it was written.
#include "lib.hpp"
#include "xml.hpp"
using namespace jm;
using namespace mc;
const char* const kProperty = "E05";

namespace
{
   using xml::Str;
   using xml::Doc;
   std::u16string fromUtf8(const uint8* p, size_t n)
   {
      std::u16string r;
      for(size_t i = 0; i < n;)
      {
         uint32_t c = p[i], k = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
         c = k == 0 ? c : c & (0x3F >> k);
         for(uint32_t j = 1; j <= k; j++)c = (c << 6) | (i + j < n ? p[i + j] & 0x3F : 0);
         i += k + 1;
         if(c > 0xFFFF)
         {
            r += (char16_t)(0xD7C0 + (c >> 10));
            r += (char16_t)(0xDC00 + (c & 0x3FF));
         }
         else r += (char16_t)c;
      }
      return r;
   }
   // Texts between the tags may have got an indentation, where one was asked for.
   struct Want
   {
      Doc d;
      std::vector<int> mayIndent; // per event: white space may have been added before it
      bool indented = false;
   };
   std::string compare(const Want& w, const Doc& got)
   {
      // bring both into the form: tag, with the text before it
      auto split = [](const Doc & d)
      {
         std::vector<std::pair<Str, xml::Ev>> r;
         Str t;
         for(auto& e : d)
         {
            if(e.kind == 'T')t += e.name;
            else
            {
               r.push_back({t, e});
               t.clear();
            }
         }
         return r;
      };
      auto a = split(w.d), b = split(got);
      if(a.size() != b.size())return "different number of tags";
      for(size_t i = 0; i < a.size(); i++)
      {
         if(!(a[i].second == b[i].second))return mc::fmt("tag %zu differs", i);
         const Str& x = a[i].first, &y = b[i].first;
         if(x == y)continue;
         if(w.mayIndent[i] && y.size() > x.size() && y.compare(0, x.size(), x) == 0)
         {
            Str rest = y.substr(x.size());
            if(rest[0] == '\n' && rest.find_first_not_of(u' ', 1) == Str::npos)continue;
         }
         return mc::fmt("text before tag %zu: '%s' instead of '%s'", i, P(y).c_str(), P(x).c_str());
      }
      return "";
   }
   struct Run
   {
      mc::Ctx& c;
      std::vector<uint8> buf;
      MemoryStream ms;
      XMLWriter w;
      Want want;
      struct Open
      {
         Str name;
         bool indent, content, chars;
      };
      std::vector<Open> open;
      bool pending = false; // an indentation was asked for and nothing was written since
      int roots = 0, serial = 0;
      Run(mc::Ctx& ctx, bool declare, size_t room = 2000): c(ctx), buf(room), ms(buf.data(), (int64)buf.size(), false), w(&ms)
      {
         if(declare)w.startDocument();
      }
      void start(const Str& n)
      {
         c.step("startElement %s", P(n).c_str());
         if(!open.empty())open.back().content = true;
         w.startElement(J(n));
         want.mayIndent.push_back(pending);
         xml::start(want.d, n);
         open.push_back({n, pending, false, false});
         pending = false;
      }
      void attribute(const Str& n, const Str& v)
      {
         c.step("writeAttribute %s %s", P(n).c_str(), P(v).c_str());
         w.writeAttribute(J(n), J(v));
         if(!open.back().content)
         {
            want.d.back().attr.push_back({n, v});
            pending = false;
         }
      }
      void text(const Str& t)
      {
         c.step("writeCData %s", P(t).c_str());
         w.writeCData(J(t));
         xml::text(want.d, t);
         open.back().content = open.back().chars = true;
         pending = false;
      }
      void raw(const Str& t)
      {
         c.step("writeCData %s, not encoded", P(t).c_str());
         w.writeCData(J(t), false);
         xml::text(want.d, t);
         open.back().content = open.back().chars = true;
         pending = false;
      }
      void base64(const std::string& data)
      {
         c.step("WriteBase64 %s", PB(data).c_str());
         std::vector<uint8> copy(data.begin(), data.end());
         copy.shrink_to_fit();
         w.WriteBase64(copy.data(), (int64)copy.size());
         static const char* D = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
         Str t;
         for(size_t i = 0; i < data.size(); i += 3)
         {
            uint32_t v = 0;
            size_t n = std::min<size_t>(3, data.size() - i);
            for(size_t k = 0; k < 3; k++)v = v << 8 | (k < n ? (uint8_t)data[i + k] : 0);
            for(size_t k = 0; k < 4; k++)t += k <= n ? (char16_t)D[(v >> (18 - 6 * k)) & 63] : u'=';
         }
         xml::text(want.d, t);
         open.back().content = open.back().chars = true;
         pending = false;
      }
      void indent(bool more)
      {
         c.step(more ? "startIndent" : "endIndent");
         if(more)w.startIndent();
         else w.endIndent();
         if(!open.empty())open.back().content = true;
         pending = more;
      }
      void end()
      {
         c.step("endElement");
         w.endElement();
         want.mayIndent.push_back(open.back().indent && !open.back().chars);
         xml::end(want.d, open.back().name);
         open.pop_back();
         pending = false;
         if(open.empty())roots++;
      }
      void finish()
      {
         while(!open.empty())end();
         int64 n = ms.position();
         w.endDocument();
         Str s = fromUtf8(buf.data(), n);
         xml::Strict strict(s);
         strict.parse();
         EXPECT(c, strict.error.empty(), "not well-formed (%s): %s", strict.error.c_str(), P(s).c_str());
         std::string diff = compare(want, xml::inner(strict.d));
         EXPECT(c, diff.empty(), "%s in %s", diff.c_str(), P(s).c_str());
         xml::Rec rec;
         rec.parse(String(ByteArray(buf.data(), n)));
         EXPECT(c, rec.order && rec.started == 1 && rec.ended == 1 && rec.uris, "order of the parser's calls");
         diff = compare(want, xml::inner(rec.d));
         EXPECT(c, diff.empty(), "the parser: %s in %s: %s", diff.c_str(), P(s).c_str(), xml::show(rec.d).c_str());
         c.state(P(s));
         c.trans();
      }
   };
   const std::vector<Str> ALPHA = {u"a", u"&", u"<", u">", u"\"", u"'", u" ", u"\n", u";", u"#", u"\u00e9", u"\u20ac", u"\U0001F600", u"]", u"/", u"\t", u"amp"};
}

void defineScenarios()
{
   mc::watchHandles();
   useLibrary();
   scenario("every text and attribute value", {2, "all strings of 0..4 / 0..5 units of & < > \" ' ; # ] / space, newline, tab, letters, e acute, euro, an emoji, 'amp'; as text, as attribute, as both, in three indentation modes"}, [](Ctx & c)
   {
      int n = c.choose(tier(5, 6)), mode = c.choose(3);
      Str s;
      for(int i = 0; i < n; i++)s += ALPHA[c.choose((int)ALPHA.size())];
      Run r(c, mode != 1, 400);
      if(mode == 2)r.indent(true);
      r.start(u"r");
      r.attribute(u"x", s);
      if(mode == 2)r.indent(true);
      r.start(u"e");
      r.attribute(u"y", u"1");
      r.attribute(u"z:z", s);
      r.text(s);
      r.end();
      if(mode == 2)r.indent(false);
      r.text(s);
      r.start(u"f");
      r.finish();
   });
   scenario("every sequence of calls", {3, "up to 5 / 6 further calls of startElement (two names), writeAttribute, writeCData (encoded, not encoded), WriteBase64, startIndent, endIndent, endElement"}, [](Ctx & c)
   {
      int depth = tier(5, 6);
      Run r(c, c.choose(2) == 0);
      if(c.choose(2))r.indent(true);
      r.start(u"root");
      for(int i = 0; i < depth; i++)
      {
         int op = c.choose(r.open.size() > 1 ? 10 : 9);
         static const Str VAL[] = {u"<a b='&c'>", u" ", u"x", u"\n\n", u"&lt;"};
         if(op == 0)break;
         else if(op == 1)r.start(u"a");
         else if(op == 2)r.start(u"n:b");
         else if(op == 3)r.attribute(U(mc::fmt("k%d", r.serial).c_str()), VAL[r.serial % 5]), r.serial++;
         else if(op == 4)r.text(VAL[r.serial++ % 5]);
         else if(op == 5)r.raw(r.serial++ % 2 ? u" raw " : u"r>");
         else if(op == 6)r.base64(std::string("\xff\x00\x10\x80", 4).substr(0, 1 + r.serial++ % 4));
         else if(op == 7)r.indent(true);
         else if(op == 8)r.indent(false);
         else r.end();
      }
      r.finish();
   });
   scenario("empty texts and data", {0, "all sequences of up to 4 of: empty text, empty raw text, empty data, a child"}, [](Ctx & c)
   {
      Run r(c, true);
      r.start(u"root");
      int n = c.choose(5);
      for(int i = 0; i < n; i++)
      {
         int op = c.choose(4);
         if(op == 0)r.text(u"");
         else if(op == 1)r.raw(u"");
         else if(op == 2)r.base64("");
         else r.start(u"a"), r.end();
      }
      r.finish();
   });
   scenario("numbers as attributes", {0, "for every numeric type all powers of two and their neighbours, both signs, decimal fractions; read back with valueAsInt, valueAsDouble, valueAsFloat"}, [](Ctx & c)
   {
      struct Num: public SAXParser
      {
         bool integer = true;
         int64 i = 0;
         double d = 0;
         float f = 0;
         String s;
         void startElement(const String&, const String&, const String&, const SAXAttributes& a) override
         {
            if(integer)i = a.valueAsInt("n");
            d = a.valueAsDouble("n");
            f = a.valueAsFloat("n");
            s = a.value("n");
         }
      } p;
      int type = c.choose(6), shift = c.choose(64), delta = c.choose(3), sign = c.choose(2);
      p.integer = type < 3;
      uint64 v = ((uint64)1 << shift) + delta - 1;
      if(sign)v = ~v + 1;
      double dv = std::ldexp(1.0 + 0.25 * (delta - 1), shift - 32) * (sign ? -1 : 1);
      std::vector<uint8> buf(500);
      MemoryStream ms(buf.data(), (int64)buf.size(), false);
      XMLWriter w(&ms);
      w.startDocument();
      w.startElement("e");
      switch(type)
      {
         case 0: w.writeAttribute("n", (int32)v); break;
         case 1: w.writeAttribute("n", (uint32)v); break;
         case 2: w.writeAttribute("n", (int64)v); break;
         case 3: w.writeAttribute("n", (uint64)v); break;
         case 4: w.writeAttribute("n", (float)dv); break;
         default: w.writeAttribute("n", dv); break;
      }
      w.endElement();
      int64 n = ms.position();
      p.parse(String(ByteArray(buf.data(), n)));
      std::string got = P(p.s), want;
      switch(type)
      {
         case 0: want = mc::fmt("%d", (int)(int32)v); break;
         case 1: want = mc::fmt("%u", (unsigned)(uint32)v); break;
         case 2: want = mc::fmt("%lld", (long long)(int64)v); break;
         case 3: want = mc::fmt("%llu", (unsigned long long)v); break;
      }
      if(type < 4)
      {
         EXPECT(c, got == want, "%s written, %s read", want.c_str(), got.c_str());
         if(type < 3)EXPECT(c, p.i == (type == 0 ? (int64)(int32)v : type == 1 ? (int64)(uint32)v : (int64)v), "valueAsInt of %s is %lld", want.c_str(), (long long)p.i);
      }
      else
      {
         // The text carries as many digits as String::valueOf gives (S03); what is read is the value of that text.
         String t = type == 4 ? String::valueOf((float)dv) : String::valueOf(dv);
         EXPECT(c, p.s == t, "%s written, %s read", P(t).c_str(), got.c_str());
         EXPECT(c, std::fabs(p.d - dv) <= 1e-6 * std::max(1.0, std::fabs(dv)), "valueAsDouble %.17g instead of %.17g", p.d, dv);
         EXPECT(c, std::fabs(p.f - dv) <= 2e-6 * std::max(1.0, std::fabs(dv)), "valueAsFloat %.9g instead of %.17g", p.f, dv);
      }
      c.trans();
      c.state(got);
   });
   scenario("large documents", {1, "46 sizes up to 65537 (nesting, attributes, children and indentation: 257): nesting that deep, that many attributes, children, characters per name, text, value and block of data, changes of the indentation"}, [](Ctx & c)
   {
      std::vector<int> len;
      for(int i : farLengths())if(i <= 20 || i % 8 == 0 || i > 40)len.push_back(i);
      int n = len[c.choose((int)len.size())], what = c.choose(9), indent = c.choose(2);
      if(n > 300 && (what < 3 || what == 8))return;
      if(n > 70000)return;
      Run r(c, true, 3000000);
      if(indent)r.indent(true);
      r.start(u"root");
      auto name = [](int i)
      {
         return U(mc::fmt("a%d", i).c_str());
      };
      Str text;
      for(int i = 0; i < n; i++)text += what == 3 || i % 5 ? Str(1, (char16_t)('a' + i % 26)) : ALPHA[i / 5 % ALPHA.size()];
      std::string data;
      for(int i = 0; i < n; i++)data += (char)(i * 37 + n);
      switch(what)
      {
         case 0:
            for(int i = 0; i < n; i++)
            {
               if(indent)r.indent(true);
               r.start(name(i % 7));
               if(i % 3 == 0)r.attribute(u"d", name(i));
               if(i % 5 == 0)r.text(u"t");
            }
            for(int i = 0; i < n; i++)
            {
               r.end();
               if(indent)r.indent(false);
               if(i % 4 == 0)r.text(u"u");
            }
            break;
         case 1:
            for(int i = 0; i < n; i++)r.attribute(name(i), ALPHA[i % ALPHA.size()]);
            r.text(u"t");
            break;
         case 2:
            for(int i = 0; i < n; i++)
            {
               r.start(name(i));
               r.attribute(u"i", name(i));
               r.end();
            }
            break;
         case 3:
            if(n)
            {
               r.start(text);
               r.attribute(text, u"v");
               r.start(text + u":" + text);
               r.text(u"t");
               r.end();
               r.end();
            }
            break;
         case 4:
            r.attribute(u"v", text);
            r.attribute(u"w", text);
            break;
         case 5:
            r.text(text);
            r.start(u"e");
            r.text(text);
            r.end();
            r.text(text);
            break;
         case 6:
            r.base64(data);
            break;
         case 7:
            r.text(u"(");
            r.base64(data);
            r.base64(data.substr(0, n / 2));
            r.text(u")");
            break;
         default:
            for(int i = 0; i < n; i++)r.indent(true);
            r.start(u"e");
            r.end();
            for(int i = 0; i < n / 2; i++)r.indent(false);
            r.start(u"e");
            r.attribute(u"x", u"y");
            r.end();
      }
      r.finish();
   });
   scenario("a writer leaves nothing behind; the document begins with the declaration", {2, "0..3 open elements, with and without text, closed or left open"}, [](Ctx & c)
   {
      int n = c.choose(4), text = c.choose(2), close = c.choose(2), ended = c.choose(2);
      std::vector<uint8> buf(2000);
      std::string out;
      leakFree(c, [&]
      {
         MemoryStream ms(buf.data(), (int64)buf.size(), false);
         XMLWriter w(&ms);
         w.startDocument();
         for(int i = 0; i < n; i++)
         {
            w.startElement("element");
            if(text)w.writeCData("text");
         }
         if(close)for(int i = 0; i < n; i++)w.endElement();
         if(ended)w.endDocument();
      });
      size_t len = 0;
      while(len < buf.size() && buf[len])len++;
      out.assign((char*)buf.data(), len);
      EXPECT(c, out.compare(0, 14, "<?xml version=") == 0, "the document begins with '%s'", out.substr(0, 20).c_str());
      size_t e = out.find("?>");
      EXPECT(c, e != std::string::npos && out.find("encoding=\"UTF-8\"") < e, "the declaration does not name the encoding: '%s'", out.c_str());
      c.state(out);
   });
}
