// SAXParser: well-formed documents are reported exactly, any other text is survived.
#include "lib.hpp"
#include "fastexc.hpp"
#include "xml.hpp"
using namespace jm;
using namespace mc;
const char* const kProperty = "E06";

namespace
{
   using xml::Str;
   using xml::Doc;
   struct NullBuf: public std::streambuf
   {
      int overflow(int c) override
      {
         return c;
      }
   };
   void check(Ctx& c, const Str& text, const Doc& want)
   {
      if(c.verbose)c.step("%s", P(text).c_str());
      xml::Rec rec;
      bool t = threw([&] {rec.parse(J(text));});
      EXPECT(c, !t, "refused: %s", P(text).c_str());
      EXPECT(c, rec.order && rec.started == 1 && rec.ended == 1 && rec.uris, "order of the calls for %s", P(text).c_str());
      Doc got = xml::inner(rec.d);
      EXPECT(c, got == want, "%s\n  gives   %s\n  instead %s", P(text).c_str(), xml::show(got).c_str(), xml::show(want).c_str());
      c.trans();
      c.state(P(text));
   }
   // any text at all: terminates, reports nothing outside startDocument ... endDocument
   void survive(Ctx& c, const Str& text)
   {
      c.trans();
      xml::Rec rec;
      String s = J(text);
      bool t = threw([&] {rec.parse(s);});
      EXPECT(c, rec.order && rec.started == 1 && rec.ended == (t ? 0 : 1), "order of the calls for %s", P(text).c_str());
      EXPECT(c, U(s) == text, "the text was changed");
   }
   struct Piece
   {
      const char16_t* text;
      const char16_t* means;
   };
   const Piece VALUE[] = {{u"", u""}, {u"x", u"x"}, {u">", u">"}, {u"/", u"/"}, {u"=", u"="}, {u" ", u" "}, {u"&amp;", u"&"}, {u"&lt;", u"<"}, {u"&gt;", u">"}, {u"&quot;", u"\""},
      {u"&apos;", u"'"}, {u"&#65;", u"A"}, {u"&#x20ac;", u"\u20ac"}, {u"\u00e9", u"\u00e9"}, {u"OTHER", u"OTHER"}, {u"/>", u"/>"}, {u"?>", u"?>"}, {u"&#38;lt;", u"&lt;"}, {u"\U0001F600", u"\U0001F600"}
   };
   const int kValues = sizeof VALUE / sizeof *VALUE;
   const char16_t* const SPACE[] = {u" ", u"\n", u"\t ", u"\r\n  "};
   const char16_t* const EQUALS[] = {u"=", u" = ", u"\n=\t", u" ="};
   const Piece CONTENT[] = {{u"t", u"t"}, {u" ", u" "}, {u"\n", u"\n"}, {u"'", u"'"}, {u"\"", u"\""}, {u">", u">"}, {u"=/", u"=/"}, {u"&amp;", u"&"}, {u"&lt;", u"<"}, {u"&gt;", u">"}, {u"&quot;", u"\""},
      {u"&apos;", u"'"}, {u"&#10;", u"\n"}, {u"&#x1F600;", u"\U0001F600"}, {u"\u00fc", u"\u00fc"}, {u"]]", u"]]"},
      {u"<!-- c -->", u""}, {u"<!---->", u""}, {u"<!-- don't <b> & \" -->", u""}, {u"<![CDATA[]]>", u""}, {u"<![CDATA[<a b='&amp;'>]] ]>]]>", u"<a b='&amp;'>]] ]>"}, {u"<![CDATA[ ' ]]>", u" ' "}
   };
   const int kTexts = sizeof CONTENT / sizeof *CONTENT;
   // further kinds of content: processing instructions, elements, start and end of an element
   void content(Ctx& c, Str& s, Doc& d, int maximal, int first = 0)
   {
      std::vector<Str> open;
      for(int i = 0; i < maximal; i++)
      {
         int k = i < first ? c.choose(kTexts + 7) : c.choose(kTexts + 8);
         if(k < kTexts)
         {
            s += CONTENT[k].text;
            xml::text(d, CONTENT[k].means);
         }
         else if(k == kTexts)
         {
            s += u"<?p d='>' ?>";
            d.push_back({'P', u"p", u"d='>' ", {}});
         }
         else if(k == kTexts + 1)
         {
            s += u"<?q?>";
            d.push_back({'P', u"q", u"", {}});
         }
         else if(k == kTexts + 2)
         {
            s += u"<e/>";
            xml::start(d, u"e");
            xml::end(d, u"e");
         }
         else if(k == kTexts + 3)
         {
            s += u"<n:e a='>'\n/>";
            xml::start(d, u"n:e");
            d.back().attr.push_back({u"a", u">"});
            xml::end(d, u"n:e");
         }
         else if(k == kTexts + 4)
         {
            s += u"<f></f >";
            xml::start(d, u"f");
            xml::end(d, u"f");
         }
         else if(k == kTexts + 5)
         {
            s += u"<o>";
            xml::start(d, u"o");
            open.push_back(u"o");
         }
         else if(k == kTexts + 6)
         {
            if(open.empty())
            {
               s += u"<i x=\"/\" >";
               xml::start(d, u"i");
               d.back().attr.push_back({u"x", u"/"});
               open.push_back(u"i");
            }
            else
            {
               s += u"</" + open.back() + u">";
               xml::end(d, open.back());
               open.pop_back();
            }
         }
         else break;
      }
      while(!open.empty())
      {
         s += u"</" + open.back() + u">";
         xml::end(d, open.back());
         open.pop_back();
      }
   }
   const char* const ALPHA = "<>/&;\"'= a!-[]?#x";
   const int kAlpha = 17;
   // a document with everything in it
   const Str SAMPLE = u"<?xml version='1.0'?><!DOCTYPE a [<!ENTITY e \"v>\"><!-- ' --><?p ]?>]><!-- c --><a b=\"1\" c='&lt;>'><![CDATA[<x>]]>t &amp; &#x41;<b/><?q r?></a >";
}

void defineScenarios()
{
   mc::watchHandles();
   onWorkerStart([]
   {
      static NullBuf nothing;
      std::cout.rdbuf(&nothing);
      System::init("");
   });
   scenario("attributes", {3, "0..2 attributes with every value of up to 2 pieces (markup characters, references, the other quote, non-ASCII), both quotes; 4 kinds of white space and of the equals sign (one of both per attribute in quick); empty element or start tag"}, [](Ctx & c)
   {
      Doc d;
      Str s = u"<n:a";
      xml::start(d, u"n:a");
      int n = c.choose(3), form = c.choose(3);
      for(int i = 0; i < n; i++)
      {
         bool dq = c.choose(2);
         int sp = i == 0 || thorough() ? c.choose(4) : form + 1, eq = thorough() ? c.choose(4) : (sp + i) % 4, len = i == 0 ? c.choose(3) : c.choose(2);
         Str t, m;
         for(int k = 0; k < len; k++)
         {
            const Piece& p = VALUE[c.choose(kValues)];
            Str x = p.text;
            if(x == u"OTHER")
            {
               t += dq ? u"'" : u"\"";
               m += dq ? u"'" : u"\"";
            }
            else
            {
               t += x;
               m += p.means;
            }
         }
         Str name = i ? u"y:b" : u"a-1";
         Str q = dq ? u"\"" : u"'";
         s += SPACE[sp] + name + EQUALS[eq] + q + t + q;
         d.back().attr.push_back({name, m});
      }
      s += form == 0 ? u"/>" : form == 1 ? u" />" : u"\n>x</n:a\n>";
      if(form == 2)xml::text(d, u"x");
      xml::end(d, u"n:a");
      check(c, s, d);
   });
   scenario("content", {3, "0..3 / 0..4 pieces out of 29: text, white space, quotes, references, comments, CDATA, processing instructions, elements, tags"}, [](Ctx & c)
   {
      Doc d;
      Str s = u"<r>";
      xml::start(d, u"r");
      content(c, s, d, tier(3, 4));
      s += u"</r>";
      xml::end(d, u"r");
      check(c, s, d);
   });
   scenario("prologue and epilogue", {2, "with and without declaration, up to 3 / 4 of: comments, white space, processing instructions, then one of 7 document types, then the same again; up to 2 behind the root"}, [](Ctx & c)
   {
      Doc d;
      Str s;
      static const char16_t* const DECL[] = {u"", u"<?xml version=\"1.0\"?>", u"<?xml version='1.0' encoding='UTF-8' standalone=\"yes\" ?>\n"};
      static const char16_t* const TYPE[] = {u"", u"<!DOCTYPE r>", u"<!DOCTYPE r SYSTEM \"a>b\">", u"<!DOCTYPE r PUBLIC '-//\">' \"<x\" >", u"<!DOCTYPE r [ ]>",
                                             u"<!DOCTYPE r [<!ELEMENT r (a|b)*><!ATTLIST r x CDATA \"]>'\"> ] >", u"<!DOCTYPE r [<!-- don't ]> --><?p ' ]> ?><!ENTITY e '\">'>]>"
                                            };
      auto misc = [&](int maximal)
      {
         for(int i = 0; i < maximal; i++)
         {
            int k = c.choose(7);
            if(k == 0)break;
            if(k == 1)s += u"<!-- x -->";
            else if(k == 2)s += u"<!-- <r a='1'>don't -->";
            else if(k == 3)s += u"\n";
            else if(k == 4)s += u"  ";
            else if(k == 5)
            {
               s += u"<?style href=\"a>\"?>";
               d.push_back({'P', u"style", u"href=\"a>\"", {}});
            }
            else
            {
               s += u"<!---> --->";
               // "<!-->" followed by text is no comment in XML, this one is: the comment ends at the first "-->"
               s.resize(s.size() - 11);
               s += u"<!-- > -->";
            }
         }
      };
      s += DECL[c.choose(3)];
      misc(tier(2, 3));
      int t = c.choose(7);
      s += TYPE[t];
      if(t)misc(tier(1, 2));
      s += u"<r>x</r>";
      xml::start(d, u"r");
      xml::text(d, u"x");
      xml::end(d, u"r");
      misc(2);
      check(c, s, d);
   });
   scenario("all numeric character references", {1, "every character of the planes 0 and 1 / of all planes, decimal and hexadecimal (both cases, leading zeros), in text and attributes; references beyond the planes are dropped"}, [](Ctx & c)
   {
      int block = c.choose(0x1100), stepw = thorough() ? 1 : block < 0x200 ? 1 : 37;
      for(int k = 0; k < 256; k = k == 255 ? 256 : std::min(k + stepw, 255))
      {
         uint32_t cp = block * 256 + k;
         if(cp == 0 || (cp >= 0xD800 && cp < 0xE000))continue;
         Str m;
         if(cp > 0xFFFF)
         {
            m += (char16_t)(0xD7C0 + (cp >> 10));
            m += (char16_t)(0xDC00 + (cp & 0x3FF));
         }
         else m += (char16_t)cp;
         std::string t = mc::fmt("<r a='&#%u;' b=\"&#x%X;\">z&#%u;&#x%x;&#x00%xz;y&#00%u;z</r>", cp, cp, cp, cp, cp, cp);
         size_t at = t.find("z;y");
         t.replace(at, 3, ";y");
         Doc d;
         xml::start(d, u"r");
         d.back().attr = {{u"a", m}, {u"b", m}};
         xml::text(d, u"z" + m + m + m + u"y" + m + u"z");
         xml::end(d, u"r");
         check(c, U(t.c_str()), d);
      }
   });
   scenario("every short text", {3, "all texts of up to 5 / 6 characters of < > / & ; \" ' = a ! - [ ] ? # x and space, alone"}, [](Ctx & c)
   {
      Str s;
      int n = c.choose(tier(3, 4));
      for(int i = 0; i < n; i++)s += (char16_t)ALPHA[c.choose(kAlpha)];
      // the last two units in a loop
      for(int a = -1; a < kAlpha; a++)for(int b = -1; b < (a < 0 ? 0 : kAlpha); b++)
         {
            Str t = s;
            if(a >= 0)t += (char16_t)ALPHA[a];
            if(b >= 0)t += (char16_t)ALPHA[b];
            if(n == tier(2, 3) && b >= 0)for(int x = 0; x < kAlpha; x++)survive(c, t + (char16_t)ALPHA[x]);
            survive(c, t);
         }
      c.state(P(s));
   });
   scenario("short texts behind the beginning of a construct", {2, "16 beginnings, then all texts of up to 3 / 4 characters"}, [](Ctx & c)
   {
      static const char16_t* const BEGIN[] = {u"<a ", u"<a b", u"<a b=\"", u"<a b='&", u"</", u"<!-", u"<!--", u"<![CDATA[", u"<![CDATA[]", u"<?", u"<?x ", u"<!DOCTYPE ", u"<!DOCTYPE a [", u"<!DOCTYPE a [<!--", u"&#", u"<a>&#x"};
      Str s = BEGIN[c.choose(16)];
      int n = c.choose(tier(3, 4));
      for(int i = 0; i < n; i++)s += (char16_t)ALPHA[c.choose(kAlpha)];
      for(int a = -1; a < kAlpha; a++)survive(c, a < 0 ? s : s + (char16_t)ALPHA[a]);
      c.state(P(s));
   });
   scenario("every damage to a document", {1, "a document with every construct: every part of it, every character replaced by or preceded by each of 17 characters or missing, and (two at once) every pair of missing or replaced characters"}, [](Ctx & c)
   {
      int n = (int)SAMPLE.size(), i = c.choose(n);
      for(int j = i; j <= n; j++)
      {
         survive(c, SAMPLE.substr(i, j - i));
         survive(c, SAMPLE.substr(0, i) + SAMPLE.substr(j));
      }
      for(int x = 0; x < kAlpha; x++)
      {
         Str r = SAMPLE, k = SAMPLE;
         r[i] = (char16_t)ALPHA[x];
         k.insert(i, 1, (char16_t)ALPHA[x]);
         survive(c, r);
         survive(c, k);
         for(int j = i + 1; j < n; j += thorough() ? 1 : 3)
         {
            Str q = r;
            q[j] = (char16_t)ALPHA[(x * 5 + j) % kAlpha];
            survive(c, q);
         }
      }
      c.state(i);
   });
   scenario("files", {0, "encoded as UTF-8, with 0..3 pieces of content, 120 KB, 1.1 MB or empty; the file is closed afterwards and can be parsed again; a missing file gives no event"}, [](Ctx & c)
   {
      static int serial = 0;
      std::string path = scratch() + mc::fmt("/x%d.xml", serial++ % 4);
      int kind = c.choose(5);
      Doc d;
      Str s;
      if(kind == 4)fclose(fopen(path.c_str(), "wb"));
      else if(kind)
      {
         s = u"<?xml version='1.0' encoding='UTF-8'?>\n<r>";
         xml::start(d, u"r");
         if(kind == 1)content(c, s, d, 2);
         else
         {
            Str t((size_t)(kind == 2 ? 40000 : 370000), u'\u20ac');
            t[t.size() - 2] = u'a';
            xml::text(d, t);
            s += t;
         }
         s += u"</r>";
         xml::end(d, u"r");
         FILE* f = fopen(path.c_str(), "wb");
         for(size_t i = 0; i < s.size(); i++)
         {
            uint32_t u = s[i];
            if(u >= 0xD800 && u < 0xDC00)u = 0x10000 + ((u - 0xD800) << 10) + (s[++i] - 0xDC00);
            if(u < 0x80)fputc(u, f);
            else if(u < 0x800)fputc(0xC0 | u >> 6, f), fputc(0x80 | (u & 63), f);
            else if(u < 0x10000)fputc(0xE0 | u >> 12, f), fputc(0x80 | (u >> 6 & 63), f), fputc(0x80 | (u & 63), f);
            else fputc(0xF0 | u >> 18, f), fputc(0x80 | (u >> 12 & 63), f), fputc(0x80 | (u >> 6 & 63), f), fputc(0x80 | (u & 63), f);
         }
         fclose(f);
      }
      else ::remove(path.c_str());
      File file(String(path.c_str()));
      for(int again = 0; again < 2; again++)
      {
         xml::Rec rec;
         rec.parse(file);
         EXPECT(c, !file.isOpen(), "the file is left open");
         EXPECT(c, xml::inner(rec.d) == d, "%s\n  gives   %s\n  instead %s", P(s).substr(0, 300).c_str(), xml::show(rec.d).substr(0, 300).c_str(), xml::show(d).substr(0, 300).c_str());
         EXPECT(c, rec.started == (kind ? 1 : 0) && rec.ended == rec.started, "start and end of the document");
      }
      c.trans();
      c.state(P(s.substr(0, 200)));
   });
   scenario("attribute lists", {2, "every list of up to 4 attributes with 3 names and 3 values; copies, assignments, accessors; nothing leaks"}, [](Ctx & c)
   {
      static const char* const NAME[] = {"a", "b", "n:a"};
      static const char* const VAL[] = {"", "TRUE", "-12"};
      int n = c.choose(5), how = c.choose(4);
      std::vector<std::pair<int, int>> m;
      for(int i = 0; i < n; i++)
      {
         int x = c.choose(3);
         m.push_back({x, c.choose(3)});
      }
      auto body = [&]
      {
         SAXAttributes list, other;
         other.addAttribute("", "old", "old", "old");
         for(auto& p : m)list.addAttribute("", NAME[p.first], NAME[p.first], VAL[p.second]);
         SAXAttributes copy(list);
         if(how == 1)other = list;
         if(how == 2)copy = copy;
         if(how == 3)
         {
            // the original may go on
            list.addAttribute("", "more", "more", "x");
         }
         const SAXAttributes& a = how == 0 ? list : how == 1 ? other : copy;
         EXPECT(c, a.count() == (uint32)n, "count %u of %d", a.count(), n);
         for(int i = 0; i < n; i++)
         {
            EXPECT(c, a.qualifiedName(i) == NAME[m[i].first] && a.localName(i) == NAME[m[i].first] && a.value((uint32)i) == VAL[m[i].second] && a.type((uint32)i) == "CDATA", "attribute %d", i);
         }
         for(int x = 0; x < 3; x++)
         {
            int at = -1;
            for(int i = n; i-- > 0;)if(m[i].first == x)at = i;
            String v = at < 0 ? "" : VAL[m[at].second];
            EXPECT(c, a.indexOf(NAME[x]) == at && a.indexOf("", NAME[x]) == at && a.hasValue(NAME[x]) == (at >= 0), "index of %s", NAME[x]);
            EXPECT(c, a.value(String(NAME[x])) == v && a.value("", NAME[x]) == v, "value of %s", NAME[x]);
            EXPECT(c, a.valueAsBool(NAME[x]) == (at >= 0 && m[at].second == 1), "bool of %s", NAME[x]);
            if(at >= 0 && m[at].second == 2)EXPECT(c, a.valueAsInt(NAME[x]) == -12 && a.valueAsDouble(NAME[x]) == -12.0 && a.valueAsFloat(NAME[x]) == -12.0f, "number of %s", NAME[x]);
         }
         EXPECT(c, threw([&] {a.value((uint32)n + (how == 3 ? 1 : 0));}) || how == 3, "no such attribute");
      };
      body();
      leakFree(c, body);
      c.trans();
      c.state(mc::hash(m.data(), m.size() * sizeof m[0], how));
   });
   scenario("large documents", {1, "63 sizes up to 65537 (nesting, attributes, children, references: up to 257): nesting that deep, that many attributes, children, references, comments, sections, characters per name, value, text, comment, white space"}, [](Ctx & c)
   {
      int n = farLengths()[c.choose((int)farLengths().size())], what = c.choose(11);
      if(n > 300 && (what < 2 || what == 4 || what == 5 || what == 6))return;
      if(n > 70000 || (what == 9 && n > 5000))return;
      Doc d;
      Str s, letters;
      auto name = [](int i)
      {
         return U(mc::fmt("n%d", i).c_str());
      };
      for(int i = 0; i < n; i++)letters += (char16_t)('a' + i % 26);
      switch(what)
      {
         case 0: // deep
            s = u"<r>";
            xml::start(d, u"r");
            for(int i = 0; i < n; i++)
            {
               s += u"<" + name(i) + u" a='" + name(i) + u"'>x";
               xml::start(d, name(i));
               d.back().attr.push_back({u"a", name(i)});
               xml::text(d, u"x");
            }
            for(int i = n; i-- > 0;)
            {
               s += u"</" + name(i) + u"> ";
               xml::end(d, name(i));
               xml::text(d, u" ");
            }
            s += u"</r>";
            xml::end(d, u"r");
            check(c, s, d);
            return;
         case 1: // attributes
            s = u"<r";
            xml::start(d, u"r");
            for(int i = 0; i < n; i++)
            {
               s += u" " + name(i) + (i % 2 ? u"='v\"" : u"=\"v'") + name(i) + (i % 2 ? u"'" : u"\"");
               d.back().attr.push_back({name(i), (i % 2 ? u"v\"" : u"v'") + name(i)});
            }
            break;
         case 2: // long attribute
            s = u"<r a='" + letters + u"&amp;" + letters + u"' b=\"" + letters + u"\"";
            xml::start(d, u"r");
            d.back().attr.push_back({u"a", letters + u"&" + letters});
            d.back().attr.push_back({u"b", letters});
            break;
         case 3: // long names
            s = u"<r x" + letters + u"='1'";
            xml::start(d, u"r");
            d.back().attr.push_back({u"x" + letters, u"1"});
            break;
         default:
            s = u"<r";
            xml::start(d, u"r");
      }
      s += u">";
      for(int i = 0; what == 4 && i < n; i++) // children
      {
         s += i % 2 ? u"<" + name(i) + u"/>" : u"<" + name(i) + u">t</" + name(i) + u">";
         xml::start(d, name(i));
         if(i % 2 == 0)xml::text(d, u"t");
         xml::end(d, name(i));
      }
      for(int i = 0; what == 5 && i < n; i++) // references
      {
         s += i % 3 == 0 ? u"&lt;" : i % 3 == 1 ? u"&#x20ac;" : u"&#65;";
         xml::text(d, i % 3 == 0 ? u"<" : i % 3 == 1 ? u"\u20ac" : u"A");
      }
      for(int i = 0; what == 6 && i < n; i++) // comments and sections
      {
         s += i % 3 == 0 ? Str(u"<!-- <c> -->") : i % 3 == 1 ? Str(u"<![CDATA[<x>]]>") : Str(u"t");
         if(i % 3)xml::text(d, i % 3 == 1 ? u"<x>" : u"t");
      }
      switch(what)
      {
         case 3:
            s += u"<p:x" + letters + u">t</p:x" + letters + u"><y" + letters + u"/>";
            xml::start(d, u"p:x" + letters);
            xml::text(d, u"t");
            xml::end(d, u"p:x" + letters);
            xml::start(d, u"y" + letters);
            xml::end(d, u"y" + letters);
            break;
         case 7: // long text
            s += letters + u"&gt;" + letters + u"<e/>" + letters;
            xml::text(d, letters + u">" + letters);
            xml::start(d, u"e");
            xml::end(d, u"e");
            xml::text(d, letters);
            break;
         case 8: // long comment, section, instruction
            s += u"<!--" + letters + u"-->" + u"<![CDATA[" + letters + u"]]" + letters + u"]]>" + u"<?p " + letters + u"?>";
            xml::text(d, letters + u"]]" + letters);
            d.push_back({'P', u"p", letters, {}});
            break;
         case 9: // white space
            s += u"<e" + Str(n + 1, u' ') + u"a" + Str(n, u'\n') + u"=" + Str(n, u'\t') + u"'v'" + Str(n, u' ') + u"/>" + Str(n, u' ') + u"x" + Str(n, u'\n') + u"<f" + Str(n, u' ') + u"></f" + Str(n, u'\n') + u">";
            xml::start(d, u"e");
            d.back().attr.push_back({u"a", u"v"});
            xml::end(d, u"e");
            xml::text(d, Str(n, u' ') + u"x" + Str(n, u'\n'));
            xml::start(d, u"f");
            xml::end(d, u"f");
            break;
         case 10: // leading zeros, many brackets and dashes
            s += u"&#" + Str(n, u'0') + u"65;&#x" + Str(n, u'0') + u"42;<![CDATA[" + Str(n, u']') + u"]]>" + u"<!--" + (n ? Str(u"-") : Str()) + Str(n, u' ') + u"- -->";
            xml::text(d, u"AB" + Str(n, u']'));
            break;
      }
      s += u"</r>";
      xml::end(d, u"r");
      check(c, s, d);
   });
   scenario("names", {2, "23 names (colons, digits, points, lines, letters of other scripts and planes, beginning with xml or equal up to case) as names of elements, attributes and processing instructions, in 3 forms"}, [](Ctx & c)
   {
      static const std::vector<Str> NAME = {u"a", u"A", u"_", u"_x", u":", u"n:a", u"xml:a", u"xmlns", u"xmlns:n", u"xmlx", u"XML-", u"a1", u"a.b", u"a-b", u"a--", u"b\u00B7", u"\u00e9", u"\u4e2d\u6587", u"\u03a9m", u"\U0001F600x",
                                            u"amp", u"CDATA", u"DOCTYPE"
                                           };
      const Str& e = NAME[c.choose((int)NAME.size())];
      const Str& a = NAME[c.choose((int)NAME.size())];
      const Str& p = NAME[c.choose((int)NAME.size())];
      int form = c.choose(3);
      Doc d;
      Str s = u"<?" + p + u" d?><r>";
      d.push_back({'P', p, u"d", {}});
      xml::start(d, u"r");
      s += u"<" + e + u" " + a + u"='1'" + (form == 0 ? Str(u"/>") : form == 1 ? Str(u">t</") + e + u">" : Str(u"><") + e + u"/></" + e + u"\n>");
      xml::start(d, e);
      d.back().attr.push_back({a, u"1"});
      if(form == 1)xml::text(d, u"t");
      if(form == 2)
      {
         xml::start(d, e);
         xml::end(d, e);
      }
      xml::end(d, e);
      s += u"<?xml-" + p + u"?><?xml" + p + u" xml?></r>";
      d.push_back({'P', u"xml-" + p, u"", {}});
      d.push_back({'P', u"xml" + p, u"xml", {}});
      xml::end(d, u"r");
      check(c, s, d);
   });
   scenario("handlers that throw", {3, "documents of 1-2 / 1-3 pieces of content between a prologue and an epilogue, parsed from a text or a file by one parser; the handler of every event throws; then the parser is used again; nothing leaks"}, [](Ctx & c)
   {
      // every call, and a throw in the one with the number 'bomb'
      struct Calls: public SAXParser
      {
         std::vector<Str> calls;
         int bomb = -1;
         void call(const Str& s)
         {
            calls.push_back(s);
            if((int)calls.size() == bomb + 1)throw 4711;
         }
         void startDocument() override
         {
            call(u"(");
         }
         void endDocument() override
         {
            call(u")");
         }
         void startElement(const String&, const String&, const String& q, const SAXAttributes& a) override
         {
            Str s = u"<" + U(q);
            for(uint32 i = 0; i < a.count(); i++)s += u" " + U(a.qualifiedName(i)) + u"=" + U(a.value(i));
            call(s);
         }
         void endElement(const String&, const String&, const String& q) override
         {
            call(u"/" + U(q));
         }
         void characters(const String& s) override
         {
            call(u"T" + U(s));
         }
         void ignorableWhiteSpaces(const String& s) override
         {
            call(u"I" + U(s));
         }
         void processingInstruction(const String& t, const String& d) override
         {
            call(u"?" + U(t) + u" " + U(d));
         }
      };
      bool inFile = c.choose(2);
      Doc d;
      Str s = u"<?xml version='1.0'?><!-- c --><?p q?>\n<r a='1&amp;'>x";
      content(c, s, d, mc::tier(2, 3), 1);
      s += u"</r><?e?>";
      static int serial = 0;
      std::string path = scratch() + mc::fmt("/h%d.xml", serial++ % 4);
      if(inFile)
      {
         FILE* f = fopen(path.c_str(), "wb");
         ByteArray b = J(s).toCString();
         fwrite(b.constData(), 1, (size_t)b.size(), f);
         fclose(f);
      }
      File file(String(path.c_str()));
      String text = J(s);
      Calls p;
      auto parse = [&]
      {
         p.calls.clear();
         if(inFile)p.parse(file);
         else p.parse(text);
      };
      parse();
      std::vector<Str> all = p.calls;
      EXPECT(c, all.size() >= 6 && all.front() == u"(" && all.back() == u")", "calls for %s", P(s).c_str());
      for(int k = 0; k < (int)all.size(); k++)
      {
         p.bomb = k;
         bool t = false;
         leakStart();
         try
         {
            parse();
         }
         catch(int v)
         {
            t = v == 4711;
         }
         p.calls.resize(p.calls.size());
         std::vector<Str> got = p.calls;
         std::vector<Str>().swap(p.calls);
         size_t left = 0;
         {
            std::vector<Str> g;
            g.swap(got);
            EXPECT(c, t, "the exception of call %d does not arrive: %s", k, P(s).c_str());
            EXPECT(c, (int)g.size() == k + 1 && std::equal(g.begin(), g.end(), all.begin()), "calls before the exception of call %d for %s", k, P(s).c_str());
         }
         left = leakBlocks();
         leakStop();
         EXPECT(c, left == 0, "%zu blocks are left after the exception of call %d for %s", left, k, P(s).c_str());
         EXPECT(c, !file.isOpen(), "the file is left open");
         c.trans();
      }
      p.bomb = -1;
      parse();
      EXPECT(c, p.calls == all, "other calls after exceptions for %s", P(s).c_str());
      c.state(P(s));
   });
}
