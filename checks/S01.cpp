// String is a sequence of code units: every editing and searching operation agrees with a plain
// sequence model, for every short string / operation sequence, across the growth of the buffer.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "S01";

namespace
{
   using str = std::u16string;

   void same(mc::Ctx& c, const String& s, const str& m, const char* what)
   {
      c.trans();
      EXPECT(c, s.size() == (int64)m.size(), "%s: size %lld, expected %zu", what, (long long)s.size(), m.size());
      EXPECT(c, U(s) == m, "%s: \"%s\", expected \"%s\"", what, P(s).c_str(), P(m).c_str());
      EXPECT(c, s.isEmpty() == m.empty(), "%s: isEmpty()", what);
   }
   void observe(mc::Ctx& c, const String& s, const str& m)
   {
      same(c, s, m, "content");
      String copy(s);
      same(c, copy, m, "copy");
      EXPECT(c, copy.equals(s) && s == copy && !(s != copy), "copy is not equal");
      copy.append('!');
      same(c, s, m, "content after its copy was changed");
      uint16* w = s.toWString();
      for(size_t i = 0; i < m.size(); i++)EXPECT(c, w[i] == m[i], "toWString()[%zu]", i);
      EXPECT(c, w[m.size()] == 0, "toWString() is not terminated");
      delete[] w;
      c.state(P(m));
   }

   str base(int len)
   {
      str r;
      for(int i = 0; i < len; i++)r += (char16_t)("abcdefghijklmnopqrstuvwxyz"[i % 26]);
      return r;
   }
   // index alphabet relative to the current length
   int64 index(mc::Ctx& c, size_t n, bool outside)
   {
      switch(c.choose(outside ? 6 : 4))
      {
         case 0: return 0;
         case 1: return (int64)n / 2;
         case 2: return (int64)n - 1;
         case 3: return (int64)n;
         case 4: return (int64)n + 1;
         default: return -1;
      }
   }

   const std::vector<int> kLens = {0, 1, 2, 7, 14, 15, 16, 17, 30, 31, 32, 33, 47, 48};
   const std::vector<str> kIns = {u"X", u"", u"YZ", u"0123456789abcde", u"0123456789abcdef", u"\u00e4\u20ac\ufffe"};

   void editStep(mc::Ctx& c, String& s, str& m, bool outside)
   {
      int op = c.choose(13);
      bool bad = false, thr = false;
      int64 i;
      switch(op)
      {
         case 0:
         {
            const str& t = kIns[c.choose((int)kIns.size())];
            c.step("append(\"%s\")", P(t).c_str());
            s.append(J(t));
            m += t;
            break;
         }
         case 1:
            c.step("append(char)");
            s.append(Char((uint16)0x20ac));
            m += u'\u20ac';
            break;
         case 2:
            c.step("append(itself)");
            if(c.choose(2))s.append(s);
            else s += s;
            m += m;
            break;
         case 3:
            i = index(c, m.size(), outside);
            c.step("insert(%lld, char)", (long long)i);
            bad = i < 0 || i > (int64)m.size();
            thr = threw([&] {s.insert(i, Char('#'));});
            if(!bad)m.insert(m.begin() + i, u'#');
            break;
         case 4:
         {
            i = index(c, m.size(), outside);
            const str& t = kIns[c.choose((int)kIns.size())];
            c.step("insert(%lld, \"%s\")", (long long)i, P(t).c_str());
            bad = i < 0 || i > (int64)m.size();
            thr = threw([&] {s.insert(i, J(t));});
            if(!bad)m.insert(i, t);
            break;
         }
         case 5:
            i = index(c, m.size(), outside);
            c.step("insert(%lld, itself)", (long long)i);
            bad = i < 0 || i > (int64)m.size();
            thr = threw([&] {s.insert(i, s);});
            if(!bad)
            {
               str t = m;
               m.insert(i, t);
            }
            break;
         case 6:
            i = index(c, m.size(), outside);
            c.step("setCharAt(%lld)", (long long)i);
            bad = i < 0 || i >= (int64)m.size();
            thr = threw([&] {s.setCharAt(i, Char('@'));});
            if(!bad)m[i] = u'@';
            break;
         case 7:
            i = index(c, m.size(), outside);
            c.step("deleteCharAt(%lld)", (long long)i);
            bad = i < 0 || i >= (int64)m.size();
            thr = threw([&] {s.deleteCharAt(i);});
            if(!bad)m.erase(i, 1);
            break;
         case 8:
         {
            i = index(c, m.size(), outside);
            int64 n = (int64)m.size();
            int64 lens[4] = {1, 0, n - i, n + 3};
            int64 l = lens[c.choose(4)];
            if(l < 0)l = 0;
            c.step("deleteCharRangeAt(%lld, %lld)", (long long)i, (long long)l);
            bad = i < 0 || i > n;
            thr = threw([&] {s.deleteCharRangeAt(i, l);});
            if(!bad)m.erase(i, l);
            break;
         }
         case 9:
            c.step("clear()");
            s.clear();
            m.clear();
            break;
         case 10:
            c.step("zero()");
            s.zero();
            m.clear();
            break;
         case 11:
         {
            const str& t = kIns[c.choose((int)kIns.size())];
            c.step("assign \"%s\"", P(t).c_str());
            s = J(t);
            m = t;
            break;
         }
         case 12:
            c.step("assign itself; own substring");
            s = s;
            s = s.substring(1);
            m = m.size() > 1 ? m.substr(1) : str();
            break;
      }
      c.trans();
      EXPECT(c, thr == bad, bad ? "an index outside the string was accepted" : "a valid index was refused");
   }

   // every string over the alphabet up to the given length, chosen one code unit at a time
   str word(mc::Ctx& c, int maxLen, const str& alpha, int minLen = 0)
   {
      str r;
      int len = minLen + c.choose(maxLen - minLen + 1);
      for(int i = 0; i < len; i++)r += alpha[c.choose((int)alpha.size())];
      return r;
   }
   bool matchAt(const str& s, const str& p, int64 i)
   {
      return i >= 0 && i + (int64)p.size() <= (int64)s.size() && s.compare(i, p.size(), p) == 0;
   }
   int64 firstFrom(const str& s, const str& p, int64 f)
   {
      for(int64 a = std::max<int64>(f, 0); a <= (int64)s.size(); a++)if(matchAt(s, p, a))return a;
      return -1;
   }
   int64 lastFrom(const str& s, const str& p, int64 f)
   {
      for(int64 a = std::min<int64>(f, (int64)s.size() - 1); a >= 0; a--)if(matchAt(s, p, a))return a;
      return -1;
   }
   str lower(const str& s)
   {
      str r = s;
      for(auto& ch : r)if(ch >= 'A' && ch <= 'Z')ch += 32;
      return r;
   }
   str replaceAll(const str& s, const str& o, const str& n)
   {
      str r;
      size_t i = 0;
      while(i < s.size())
      {
         if(!o.empty() && s.compare(i, o.size(), o) == 0)
         {
            r += n;
            i += o.size();
         }
         else r += s[i++];
      }
      return r;
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   assume("searching for the empty pattern, and lastIndexOf(char, from) with from < 0, are outside the alphabet (the interface does not define them)");
   scenario("editing sequences", {3, "start length in {0,1,2,7,14..17,30..33,47,48}; 13 operations incl. self-append/self-insert/self-assignment with index in {0,n/2,n-1,n,n+1,-1}; depth 2 (quick) / 3 (thorough)"}, [](Ctx & c)
   {
      int l = kLens[c.choose((int)kLens.size())];
      str m = base(l);
      String s = J(m);
      c.step("\"%s\"", P(m).c_str());
      int depth = tier(2, 3);
      for(int d = 0; d < depth; d++)
      {
         editStep(c, s, m, false);
         observe(c, s, m);
      }
   });
   scenario("refused indices leave the string alone", {2, "every start length; one operation with an index outside; then one more"}, [](Ctx & c)
   {
      int l = kLens[c.choose((int)kLens.size())];
      str m = base(l);
      String s = J(m);
      editStep(c, s, m, true);
      observe(c, s, m);
      for(int64 i : {(int64) - 1, (int64)m.size(), (int64)m.size() + 1})EXPECT(c, threw([&] {s.charAt(i);}), "charAt(%lld) did not throw", (long long)i);
      s.append('+');
      m += u'+';
      observe(c, s, m);
   });
   scenario("editing sequences, short strings", {3, "start length in {0,3}; the same operations with valid indices or one behind; depth 3"}, [](Ctx & c)
   {
      int l = c.choose(2) * 3;
      str m = base(l);
      String s = J(m);
      for(int d = 0; d < 3; d++)
      {
         editStep(c, s, m, false);
         observe(c, s, m);
      }
   });
   scenario("construction and growth by every amount", {1, "every pair of lengths up to 70 (quick) / 160 (thorough), built by each constructor, then appended, inserted, concatenated"}, [](Ctx & c)
   {
      int n = c.choose(tier(70, 160)), k = c.choose(tier(70, 160));
      str a = base(n), b = base(k);
      std::string na(a.begin(), a.end()), nb(b.begin(), b.end());
      std::vector<uint16> wa(a.begin(), a.end());
      wa.push_back(0);
      String s[5] = {J(a), String(na.c_str()), String(na.data(), n), String(wa.data(), n), String(ByteArray((const uint8*)na.c_str(), n))};
      for(int i = 0; i < 5; i++)
      {
         c.step("constructor %d, length %d, + %d", i, n, k);
         same(c, s[i], a, "constructed");
         String t = s[i];
         t.append(J(b));
         same(c, t, a + b, "append");
         same(c, s[i] + J(b), a + b, "operator+");
         t = s[i];
         t << J(b) << Char('z') << 'y';
         same(c, t, a + b + u"zy", "operator<<");
         t = s[i];
         t.insert(n / 2, J(b));
         str m = a;
         m.insert(n / 2, b);
         same(c, t, m, "insert");
         s[i] = J(b);
         same(c, s[i], b, "assignment");
         s[i].append('q');
         same(c, s[i], b + u"q", "append after assignment");
         same(c, J(a).substring(k), k < n ? a.substr(k) : str(), "substring");
         same(c, J(a).reverse(), str(a.rbegin(), a.rend()), "reverse");
      }
      c.state(fmt("%d+%d", n, k));
   });
   scenario("searching", {4, "every text over a and U+0161, which agree in their low byte, up to length 6 (quick) / 8, every pattern up to length 3 / 4, every start position from -1 to length+1"}, [](Ctx & c)
   {
      str m = word(c, tier(6, 8), u"a\u0161");
      str p = word(c, tier(3, 4), u"a\u0161", 1);
      String s = J(m), q = J(p);
      int64 n = m.size();
      c.step("text \"%s\" pattern \"%s\"", P(m).c_str(), P(p).c_str());
      EXPECT(c, s.indexOf(q) == firstFrom(m, p, 0), "indexOf(str)");
      EXPECT(c, s.lastIndexOf(q) == lastFrom(m, p, n), "lastIndexOf(str)");
      EXPECT(c, s.startsWith(q) == matchAt(m, p, 0), "startsWith");
      EXPECT(c, s.endsWith(q) == matchAt(m, p, n - (int64)p.size()), "endsWith");
      EXPECT(c, s.startsWith(String()) && s.endsWith(String()), "every string starts and ends with the empty string");
      c.trans(5);
      for(int64 f = -2; f <= n + 2; f++)
      {
         EXPECT(c, s.indexOf(q, f) == firstFrom(m, p, f), "indexOf(str, %lld) is %lld, expected %lld", (long long)f, (long long)s.indexOf(q, f), (long long)firstFrom(m, p, f));
         EXPECT(c, s.lastIndexOf(q, f) == lastFrom(m, p, f), "lastIndexOf(str, %lld)", (long long)f);
         EXPECT(c, s.atIs(f, q) == matchAt(m, p, f), "atIs(%lld)", (long long)f);
         c.trans(3);
         if(p.size() == 1)
         {
            EXPECT(c, s.indexOf(Char((uint16)p[0]), f) == firstFrom(m, p, f), "indexOf(char, %lld)", (long long)f);
            c.trans();
            if(f >= 0 && f < n)
            {
               EXPECT(c, s.lastIndexOf(Char((uint16)p[0]), f) == lastFrom(m, p, f), "lastIndexOf(char, %lld)", (long long)f);
               c.trans();
            }
         }
      }
      if(p.size() == 1)
      {
         Char ch((uint16)p[0]);
         EXPECT(c, s.indexOf(ch) == firstFrom(m, p, 0), "indexOf(char)");
         EXPECT(c, s.lastIndexOf(ch) == lastFrom(m, p, n), "lastIndexOf(char)");
         EXPECT(c, s.count(ch) == (int64)std::count(m.begin(), m.end(), p[0]), "count(char)");
         same(c, s.replace(ch, Char('z')), replaceAll(m, p, u"z"), "replace(char, char)");
         c.trans(3);
      }
      same(c, s, m, "searched text");
      c.state(P(m));
   });
   scenario("replacing", {4, "every text over a and U+0161, which agree in their low byte, up to length 6 / 8, pattern up to 2 / 3, replacement in {empty, c, a, ba, aab}"}, [](Ctx & c)
   {
      static const std::vector<str> reps = {u"", u"c", u"a", u"ba", u"aab"};
      str m = word(c, tier(6, 8), u"a\u0161");
      str p = word(c, tier(2, 3), u"a\u0161");
      str r = reps[c.choose(5)];
      c.step("\"%s\".replace(\"%s\", \"%s\")", P(m).c_str(), P(p).c_str(), P(r).c_str());
      String s = J(m);
      same(c, s.replace(J(p), J(r)), replaceAll(m, p, r), "replace");
      same(c, s, m, "the replaced text itself");
      c.state(P(m) + "/" + P(p) + "/" + P(r));
   });
   scenario("case-insensitive comparison", {2, "every pair over {a,A,b} up to length 4 / 5 and every position"}, [](Ctx & c)
   {
      str m = word(c, tier(4, 5), u"aAb");
      str p = word(c, tier(3, 4), u"aAb");
      String s = J(m), q = J(p);
      c.step("\"%s\" / \"%s\"", P(m).c_str(), P(p).c_str());
      EXPECT(c, s.equalsIgnoreCase(q) == (lower(m) == lower(p)), "equalsIgnoreCase");
      EXPECT(c, s.equals(q) == (m == p), "equals");
      c.trans(2);
      for(int64 f = -1; f <= (int64)m.size() + 1; f++)
      {
         EXPECT(c, s.atIsIgnoreCase(f, q) == matchAt(lower(m), lower(p), f), "atIsIgnoreCase(%lld)", (long long)f);
         c.trans();
      }
   });
   scenario("substrings and trimming", {3, "every text over {blank, tab, newline, x} up to length 5 / 7; every begin/end from -1 to length+2"}, [](Ctx & c)
   {
      str m = word(c, tier(5, 6), u" \t\nx");
      String s = J(m);
      int64 n = m.size();
      c.step("\"%s\"", P(m).c_str());
      size_t b = 0, e = m.size();
      while(b < e && m[b] != u'x')b++;
      while(e > b && m[e - 1] != u'x')e--;
      same(c, s.trim(), m.substr(b, e - b), "trim");
      for(int64 i = -1; i <= n + 2; i++)
      {
         int64 bi = std::clamp<int64>(i, 0, n);
         same(c, s.substring(i), m.substr(bi), "substring(begin)");
         for(int64 j = -1; j <= n + 2; j++)
         {
            int64 ei = std::clamp<int64>(j, 0, n);
            same(c, s.substring(i, j), ei > bi ? m.substr(bi, ei - bi) : str(), "substring(begin, end)");
         }
      }
      same(c, s, m, "the text itself");
      c.state(P(m));
   });
   scenario("long texts", {1, "54 lengths up to 257, 4 contents: searching for every short and long part from every region, replacing, trimming, changing case, cutting, inserting"}, [](Ctx & c)
   {
      int n = lengths(false)[c.choose((int)lengths(false).size())], kind = c.choose(4);
      str m;
      for(int i = 0; i < n; i++)m += kind == 0 ? u'a' : kind == 1 ? (char16_t)('a' + i % 2) : kind == 2 ? (char16_t)(i % 3 ? 'A' + i % 26 : 0xe4) : (i % 17 == 16 ? u' ' : (char16_t)('a' + i * 7 % 26));
      String s = J(m);
      for(int l : {1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 64, n})
      {
         if(l > n || l == 0)continue;
         for(int at : {0, 1, n / 3, n / 2, n - l})
         {
            if(at + l > n || at < 0)continue;
            str p = m.substr(at, l), q = p;
            q.back()++;
            for(auto& x : {p, q})
            {
               String j = J(x);
               for(int64 f : {0, 1, n / 2, n - l, n - 1, n})
               {
                  EXPECT(c, s.indexOf(j, f) == firstFrom(m, x, f), "indexOf(%d characters, %lld) in %d", l, (long long)f, n);
                  EXPECT(c, s.lastIndexOf(j, f) == lastFrom(m, x, f), "lastIndexOf(%d characters, %lld) in %d", l, (long long)f, n);
                  EXPECT(c, s.atIs(f, j) == matchAt(m, x, f), "atIs");
               }
               EXPECT(c, s.startsWith(j) == matchAt(m, x, 0) && s.endsWith(j) == matchAt(m, x, n - l), "startsWith/endsWith(%d characters) of %d", l, n);
               same(c, s.replace(j, J(u"")), replaceAll(m, x, u""), "removed");
               same(c, s.replace(j, J(u"<longer>")), replaceAll(m, x, u"<longer>"), "replaced by a longer one");
               c.trans(10);
            }
            same(c, s.substring(at, at + l), m.substr(at, l), "substring");
            str cut = m;
            cut.erase(at, l);
            String t = s;
            t.deleteCharRangeAt(at, l);
            same(c, t, cut, "deleteCharRangeAt");
            t.insert(at, J(m.substr(at, l)));
            same(c, t, m, "inserted again");
            t.insert(at, t);
            same(c, t, m.substr(0, at) + m + m.substr(at), "inserted into itself");
         }
      }
      same(c, s.toLowerCase(), lower(m), "toLowerCase");
      same(c, s.toUpperCase().toLowerCase(), lower(m), "toUpperCase");
      same(c, s.reverse(), str(m.rbegin(), m.rend()), "reverse");
      same(c, J(str(n, u' ') + u"x" + m + u"y" + str(n / 2, u'\t')).trim(), u"x" + m + u"y", "trim");
      same(c, J(str(n, u' ')).trim(), u"", "trim of blanks");
      same(c, s, m, "unchanged");
      c.state(n * 4 + kind);
   });
   scenario("operators with characters and C texts", {1, "every pair of lengths up to 40 (quick) / 100 (thorough): + with a C text or a character on either side, +=, also with itself"}, [](Ctx & c)
   {
      int n = c.choose(tier(41, 101)), k = c.choose(tier(41, 101));
      str a = base(n), b = base(k);
      std::string na(a.begin(), a.end()), nb(b.begin(), b.end());
      const char* pa = na.c_str();
      const char* pb = nb.c_str();
      const int8 ch = 'Q';
      same(c, pa + J(b), a + b, "C text + string");
      same(c, J(a) + pb, a + b, "string + C text");
      same(c, J(a) + ch, a + u"Q", "string + character");
      same(c, ch + J(a), u"Q" + a, "character + string");
      String s = J(a);
      (s += J(b)) += J(a);
      same(c, s, a + b + a, "+=");
      s = J(a);
      s += s;
      same(c, s, a + a, "+= itself");
      EXPECT(c, (J(a) < J(b)) == (a < b), "operator<");
      EXPECT(c, U(String::lineSeparator()) == u"\n", "line separator");
      c.state(fmt("%d+%d", n, k));
   });
   scenario("very long texts", {1, "16 lengths up to 131073: constructing, appending, inserting, deleting, cutting, replacing, searching from every region, reversing, trimming"}, [](Ctx & c)
   {
      static const int N[] = {300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 70000, 131073};
      int n = N[c.choose(16)], kind = c.choose(2);
      str m;
      for(int i = 0; i < n; i++)m += kind ? (char16_t)(0x100 + i % 511) : (char16_t)('a' + i % 25);
      String s((const uint16*)m.data(), n);
      same(c, s, m, "from characters");
      same(c, J(m), m, "from UTF-8");
      std::string u8;
      for(char16_t ch : m)
      {
         if(ch < 0x80)u8 += (char)ch;
         else u8 += (char)(0xC0 | ch >> 6), u8 += (char)(0x80 | (ch & 63));
      }
      same(c, String(u8.c_str()), m, "from a C text");
      same(c, String(u8.data(), (int64)u8.size()), m, "from bytes with a size");
      same(c, String(ByteArray((const uint8*)u8.data(), (int64)u8.size())), m, "from a byte array");
      observe(c, s, m);
      String t, e;
      t = s;
      t.append(s);
      same(c, t, m + m, "appended");
      e << J(u"<") << s;
      e += s;
      same(c, e + s, u"<" + m + m + m, "concatenated");
      for(int64 at : {0, 1, n / 2, n - 1, n})
      {
         t = s;
         t.insert(at, s);
         same(c, t, m.substr(0, at) + m + m.substr(at), "inserted");
         t = s;
         t.insert(at, Char('#'));
         same(c, t, m.substr(0, at) + u"#" + m.substr(at), "a character inserted");
         t.deleteCharAt(at);
         same(c, t, m, "a character deleted");
         t.deleteCharRangeAt(at, n - at - 1);
         same(c, t, at < n ? m.substr(0, at) + m.substr(n - 1) : m, "a range deleted");
         same(c, s.substring(at), m.substr(at), "substring");
         same(c, s.substring(0, at), m.substr(0, at), "substring from the beginning");
         if(at < n)
         {
            t = s;
            t.setCharAt(at, Char('#'));
            str w = m;
            w[at] = u'#';
            same(c, t, w, "setCharAt");
            EXPECT(c, t.charAt(at) == Char('#') && t.indexOf(Char('#')) == at && t.lastIndexOf(Char('#')) == at && t.indexOf(J(u"#")) == at && t.lastIndexOf(J(u"#")) == at && t.count(Char('#')) == 1, "one character at %lld of %d", (long long)at, n);
            same(c, t.replace(J(u"#"), J(u"")), m.substr(0, at) + m.substr(at + 1), "removed by replace");
            same(c, t.replace(Char('#'), Char((uint16)m[at])), m, "replaced");
            EXPECT(c, !s.startsWith(t) && !s.endsWith(t) && s != t, "startsWith/endsWith");
            for(int64 f : {0, 1, n / 2, n - 1})
            {
               for(int l : {1, 2, 17})
               {
                  str p = (m + u"\u20ac").substr(at, l);
                  if(at + l > n)p = m.substr(n - l);
                  EXPECT(c, s.indexOf(J(p), f) == firstFrom(m, p, f) && s.lastIndexOf(J(p), f) == lastFrom(m, p, f), "indexOf/lastIndexOf(%d characters from %lld, %lld) in %d", l, (long long)at, (long long)f, n);
                  EXPECT(c, s.atIs(f, J(p)) == matchAt(m, p, f), "atIs");
                  EXPECT(c, s.indexOf(Char((uint16)p[0]), f) == firstFrom(m, p.substr(0, 1), f), "indexOf(character)");
                  EXPECT(c, s.lastIndexOf(Char((uint16)p[0]), f) == lastFrom(m, p.substr(0, 1), f), "lastIndexOf(character)");
               }
            }
         }
         c.trans(20);
      }
      EXPECT(c, s.startsWith(s) && s.endsWith(s) && s.indexOf(s) == 0 && s.lastIndexOf(s) == 0, "the text in itself");
      EXPECT(c, s.startsWith(J(m.substr(0, n - 1))) && s.endsWith(J(m.substr(1))) && s.lastIndexOf(J(m.substr(1))) == 1, "all but one character");
      same(c, s.reverse(), str(m.rbegin(), m.rend()), "reverse");
      same(c, J(str(n, u' ') + m + str(n, u'\n')).trim(), m, "trim");
      same(c, s, m, "unchanged");
      c.state(n * 2 + kind);
   });
}
