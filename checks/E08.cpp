// mc: link -Wl,--wrap=access -Wl,--wrap=stat -Wl,--wrap=lstat -Wl,--wrap=fopen
// Translation catalogues.
#include "lib.hpp"
#include "fastexc.hpp"
#include <sys/stat.h>
using namespace jm;
using namespace mc;
const char* const kProperty = "E08";

// The folder of the resources is /usr/share/<program>: accesses are redirected to the scratch folder.
static std::string redirect(const char* p)
{
   if(strncmp(p, "/usr/share/", 11) != 0 || scratch().empty())return p;
   const char* t = strstr(p, "/translations/");
   return t ? scratch() + t : scratch() + "/nothing";
}
extern "C"
{
   int __real_access(const char*, int);
   int __real_stat(const char*, struct stat*);
   int __real_lstat(const char*, struct stat*);
   FILE* __real_fopen(const char*, const char*);
   int __wrap_access(const char* p, int m)
   {
      return __real_access(redirect(p).c_str(), m);
   }
   int __wrap_stat(const char* p, struct stat* s)
   {
      return __real_stat(redirect(p).c_str(), s);
   }
   int __wrap_lstat(const char* p, struct stat* s)
   {
      return __real_lstat(redirect(p).c_str(), s);
   }
   FILE* __wrap_fopen(const char* p, const char* m)
   {
      return __real_fopen(redirect(p).c_str(), m);
   }
}

namespace
{
   struct NullBuf: public std::streambuf
   {
      int overflow(int c) override
      {
         return c;
      }
   };
   struct Text
   {
      std::string utf8;
      std::u16string units;
   };
   const std::string LONG(3000, 'y');
   const Text KEY[] = {{"Open", u"Open"}, {"open", u"open"}, {"%1 of %2", u"%1 of %2"}, {"two\nlines", u"two\nlines"}, {"back\\slash\\n", u"back\\slash\\n"}, {"\xc3\xa4\xe2\x82\xac", u"\u00e4\u20ac"}, {" space ", u" space "}, {"", u""}};
   const Text TRANS[] = {{"\xc3\x96""ffnen", u"\u00d6ffnen"}, {"", u""}, {"zwei\nZeilen\r\n", u"zwei\nZeilen\r\n"}, {"\\n \\t \\", u"\\n \\t \\"}, {" = \t", u" = \t"}, {"\xf0\x9f\x98\x80", u"\U0001F600"}, {LONG, std::u16string(3000, u'y')}};
   const int kKeys = sizeof KEY / sizeof *KEY, kTrans = sizeof TRANS / sizeof *TRANS;
   typedef std::vector<std::pair<int, int>> Cat; // key, translation
   // An independent writer.  layout: order and place of the tables
   std::string make(const Cat& cat, int layout, uint32_t* origAt = nullptr, uint32_t* transAt = nullptr)
   {
      std::string out(28, 0);
      auto le = [&](size_t at, uint32_t v)
      {
         for(int i = 0; i < 4; i++)out[at + i] = (char)(v >> 8 * i);
      };
      uint32_t n = (uint32_t)cat.size();
      uint32_t o, t;
      std::vector<std::array<uint32_t, 4>> recs;
      std::string strings;
      auto addStrings = [&](uint32_t base)
      {
         for(auto& e : cat)
         {
            std::array<uint32_t, 4> r;
            r[0] = (uint32_t)KEY[e.first].utf8.size();
            r[1] = base + (uint32_t)strings.size();
            strings += KEY[e.first].utf8;
            if(layout != 3)strings += '\0';
            r[2] = (uint32_t)TRANS[e.second].utf8.size();
            r[3] = base + (uint32_t)strings.size();
            strings += TRANS[e.second].utf8;
            if(layout < 2)strings += '\0'; // the terminating zero belongs to the format, the lengths decide
            recs.push_back(r);
         }
      };
      if(layout == 1)
      {
         // strings first, then the table of the translations, then that of the originals
         addStrings(28);
         out += strings;
         t = (uint32_t)out.size();
         out.resize(out.size() + 8 * n);
         o = (uint32_t)out.size();
         out.resize(out.size() + 8 * n);
      }
      else
      {
         if(layout == 2)out += "gap"; // odd addresses
         o = (uint32_t)out.size();
         out.resize(out.size() + 8 * n);
         t = (uint32_t)out.size();
         out.resize(out.size() + 8 * n);
         addStrings((uint32_t)out.size());
         out += strings;
      }
      le(0, 0x950412de);
      le(8, n);
      le(12, o);
      le(16, t);
      le(24, t + 8 * n);
      for(uint32_t i = 0; i < n; i++)
      {
         le(o + 8 * i, recs[i][0]);
         le(o + 8 * i + 4, recs[i][1]);
         le(t + 8 * i, recs[i][2]);
         le(t + 8 * i + 4, recs[i][3]);
      }
      if(origAt)*origAt = o;
      if(transAt)*transAt = t;
      return out;
   }
   std::string make0(const Cat& cat)
   {
      return make(cat, 0);
   }
   void load(I18nBundle& b, const std::string& data)
   {
      std::vector<uint8> copy(data.begin(), data.end());
      copy.shrink_to_fit();
      MemoryStream ms(copy.data(), (int64)copy.size(), false);
      b.appendMo(&ms);
   }
   void compare(Ctx& c, const I18nBundle& b, const std::map<int, int>& want)
   {
      for(int k = 0; k < kKeys; k++)
      {
         String key = J(KEY[k].units);
         auto it = want.find(k);
         // an empty translation means: not translated
         const std::u16string& w = it == want.end() || TRANS[it->second].units.empty() ? KEY[k].units : TRANS[it->second].units;
         EXPECT(c, U(b.translate(key)) == w, "'%s' is translated to '%s' instead of '%s'", P(KEY[k].units).c_str(), P(b.translate(key)).substr(0, 100).c_str(), P(w).substr(0, 100).c_str());
      }
      EXPECT(c, b.translate("Unknown %1") == "Unknown %1", "unknown key");
      EXPECT(c, b.size() == (int64)want.size(), "%d entries", (int)b.size());
   }
   void survive(Ctx& c, const std::string& data, const Cat& cat)
   {
      c.trans();
      I18nBundle b("xx");
      b.setValue("kept", "bleibt");
      EXPECT(c, !threw([&] {load(b, data);}), "a damaged catalogue throws");
      EXPECT(c, b.translate("kept") == "bleibt" || data.find("kept") != std::string::npos, "other entries are lost");
      for(auto& e : cat)b.translate(J(KEY[e.first].units));
   }
}

void defineScenarios()
{
   mc::watchHandles();
   onWorkerStart([]
   {
      static NullBuf nothing;
      std::cout.rdbuf(&nothing);
      scratch();
      System::init("");
   });
   scenario("catalogues", {3, "all lists of 0..3 (thorough 4) messages out of 8 keys and 7 translations, four layouts, two of them with strings directly behind each other; as memory stream or file"}, [](Ctx & c)
   {
      int n = c.choose(tier(4, 5)), layout = c.choose(4), how = c.choose(2);
      Cat cat;
      std::map<int, int> want;
      for(int i = 0; i < n; i++)
      {
         int k = c.choose(kKeys), t = i == 0 || thorough() ? c.choose(kTrans) : (k + i) % kTrans;
         cat.push_back({k, t});
         want[k] = t;
      }
      std::string data = make(cat, layout);
      I18nBundle b("xx");
      if(how == 0)load(b, data);
      else
      {
         std::string p = scratch() + "/cat.mo";
         FILE* f = fopen(p.c_str(), "wb");
         fwrite(data.data(), 1, data.size(), f);
         fclose(f);
         File file(String(p.c_str()));
         b.appendMo(&file);
         EXPECT(c, !file.isOpen(), "the file is left open");
      }
      compare(c, b, want);
      c.trans();
      c.state(data);
   });
   scenario("several catalogues", {2, "all sequences of 1..3 catalogues of one or two messages into one bundle: later ones win"}, [](Ctx & c)
   {
      int n = 1 + c.choose(3);
      I18nBundle b("xx");
      std::map<int, int> want;
      for(int i = 0; i < n; i++)
      {
         int k = c.choose(3), t = c.choose(3), two = c.choose(2);
         Cat cat = {{k, t}};
         if(two)cat.push_back({k + 1, t + 1});
         for(auto& e : cat)want[e.first] = e.second;
         load(b, make(cat, i % 3));
         compare(c, b, want);
         c.trans();
      }
   });
   scenario("refused files", {0, "wrong magic number (also the other byte order), other versions: nothing is translated"}, [](Ctx & c)
   {
      Cat cat = {{0, 0}, {3, 2}};
      std::string d = make(cat, 0);
      int k = c.choose(5);
      if(k == 0)std::swap(d[0], d[3]), std::swap(d[1], d[2]);
      if(k == 1)d[0] ^= 1;
      if(k == 2)d[4] = 1;
      if(k == 3)d[6] = 1;
      if(k == 4)d.clear();
      I18nBundle b("xx");
      load(b, d);
      compare(c, b, {});
      c.trans();
      c.state(k);
   });
   scenario("damaged catalogues", {1, "every truncation; every byte of header and tables replaced by all values; every field of header and tables replaced by 20 boundary values, all pairs of fields in thorough; three layouts"}, [](Ctx & c)
   {
      Cat cat = {{0, 0}, {3, 2}, {5, 5}};
      int layout = c.choose(3);
      uint32_t o, t;
      std::string d = make(cat, layout, &o, &t);
      int len = (int)d.size();
      std::vector<uint32_t> fields = {0, 4, 8, 12, 16, 20, 24};
      for(int i = 0; i < 3; i++)for(uint32_t f :
                                       {
                                          o + 8 * i, o + 8 * i + 4, t + 8 * i, t + 8 * i + 4
                                       })fields.push_back(f);
      int which = c.choose((int)fields.size() + 1);
      if(which == (int)fields.size())
      {
         for(int n = 0; n <= len; n++)survive(c, d.substr(0, n), cat);
         return;
      }
      uint32_t f = fields[which];
      for(int byte = 0; byte < 4; byte++)for(int v = 0; v < 256; v++)
         {
            std::string x = d;
            x[f + byte] = (char)v;
            survive(c, x, cat);
         }
      uint32_t L = (uint32_t)len;
      const std::vector<uint32_t> VAL = {0, 1, 7, 8, L - 9, L - 8, L - 7, L - 1, L, L + 1, 0x7FFFFFFF, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFFFF8u, 0u - L, 1u - L, 0x10000000, 0x20000000};
      auto set = [](std::string & s, uint32_t at, uint32_t v)
      {
         for(int i = 0; i < 4; i++)s[at + i] = (char)(v >> 8 * i);
      };
      for(uint32_t v : VAL)
      {
         std::string x = d;
         set(x, f, v);
         survive(c, x, cat);
         for(int w2 = which + 1; w2 < (int)fields.size(); w2++)
            for(size_t v2 = 0; v2 < VAL.size(); v2 += thorough() ? 1 : 3)
            {
               std::string y = x;
               set(y, fields[w2], VAL[v2]);
               survive(c, y, cat);
            }
      }
      c.state(which * 3 + layout);
   });
   scenario("finding the file of a language", {0, "every subset of the four possible files, 6 spellings of the language, with and without another prefix"}, [](Ctx & c)
   {
      int set = c.choose(16), lang = c.choose(6), prefix = c.choose(2);
      static const char* const LANG[] = {"de_DE", "de-DE", "de", "pt-BR", "zh_Hant_TW", "fil-PH"};
      static const char* const FULL[] = {"de_DE", "de_DE", "de", "pt_BR", "zh_Hant_TW", "fil_PH"};
      static const char* const SHORT[] = {"de", "de", "de", "pt", "zh", "fil"};
      std::string name = prefix ? "org.app" : "";
      std::string dir = scratch() + "/translations/";
      mkdir((scratch() + "/translations").c_str(), 0700);
      std::vector<std::string> order = {name + "." + FULL[lang] + ".mo", std::string(FULL[lang]) + ".mo", name + "." + SHORT[lang] + ".mo", std::string(SHORT[lang]) + ".mo"};
      for(int i = 0; i < 4; i++)::remove((dir + order[i]).c_str());
      int want = -1;
      for(int i = 3; i >= 0; i--)
      {
         if(!(set >> i & 1))continue;
         FILE* f = fopen((dir + order[i]).c_str(), "wb");
         std::string data = make({{0, i % 2 ? 0 : 2}, {1, i / 2 ? 0 : 2}}, 0);
         fwrite(data.data(), 1, data.size(), f);
         fclose(f);
      }
      for(int i = 3; i >= 0; i--)if(__real_access((dir + order[i]).c_str(), F_OK) == 0)want = i;
      Resource r = I18nBundle::transFileByBundleId(name.c_str(), LANG[lang]);
      EXPECT(c, r.exists() == (want >= 0), "exists");
      I18nBundle b(LANG[lang]);
      b.appendMo(&r);
      if(want < 0)
      {
         EXPECT(c, b.size() == 0, "entries without a file");
      }
      else
      {
         FILE* f = fopen((dir + order[want]).c_str(), "rb");
         char buf[4096];
         size_t n = fread(buf, 1, sizeof buf, f);
         fclose(f);
         I18nBundle e(LANG[lang]);
         load(e, std::string(buf, n));
         EXPECT(c, b.size() == 2 && e.size() == 2 && b.translate("Open") == e.translate("Open") && b.translate("open") == e.translate("open"), "another file than '%s' was taken", order[want].c_str());
      }
      c.trans();
      c.state(set * 16 + lang * 2 + prefix);
   });
   scenario("memory", {0, "0..8 messages, loaded once or twice: nothing leaks"}, [](Ctx & c)
   {
      int n = c.choose(9), twice = c.choose(2);
      Cat cat;
      for(int i = 0; i < n; i++)cat.push_back({i % kKeys, i % kTrans});
      std::string d = make0(cat);
      leakFree(c, [&]
      {
         I18nBundle b("xx");
         load(b, d);
         if(twice)load(b, d);
      });
      c.trans();
      c.state(n * 2 + twice);
   });
   scenario("large catalogues", {0, "63 sizes up to 1025: that many messages, keys and translations of that length; later catalogues replace single ones"}, [](Ctx & c)
   {
      int n = lengths()[c.choose((int)lengths().size())], what = c.choose(2), layout = c.choose(2);
      std::vector<std::pair<std::string, std::string>> msgs;
      if(what == 0)for(int i = 0; i < n; i++)msgs.push_back({mc::fmt("Message %d", i * 7919 % 100003), mc::fmt("Meldung %d", i)});
      else
      {
         std::string k, t;
         for(int i = 0; i < n; i++)k += (char)('a' + i % 26), t += (char)('A' + i % 25);
         msgs = {{"k" + k, "first"}, {"key", "t" + t}, {"K" + k, "T" + t}, {"last", "letzte"}};
      }
      auto file = [&](const std::vector<std::pair<std::string, std::string>>& l)
      {
         uint32_t count = (uint32_t)l.size();
         std::string head, tab[2], strings;
         auto le = [](std::string & s, uint32_t v)
         {
            for(int i = 0; i < 4; i++)s += (char)(v >> 8 * i);
         };
         uint32_t base = 28 + 16 * count;
         // layout 0: all keys first, then all translations; 1: in pairs
         std::vector<std::array<uint32_t, 2>> at(count);
         for(int pass = 0; pass < 2; pass++)
         {
            for(uint32_t i = 0; i < count; i++)
            {
               if(layout == 0 || pass == 0)
               {
                  at[i][layout == 0 ? pass : 0] = base + (uint32_t)strings.size();
                  strings += (layout == 0 && pass ? l[i].second : l[i].first) + '\0';
               }
               if(layout == 1 && pass == 0)
               {
                  at[i][1] = base + (uint32_t)strings.size();
                  strings += l[i].second + '\0';
               }
            }
         }
         for(uint32_t i = 0; i < count; i++)
         {
            le(tab[0], (uint32_t)l[i].first.size());
            le(tab[0], at[i][0]);
            le(tab[1], (uint32_t)l[i].second.size());
            le(tab[1], at[i][1]);
         }
         for(uint32_t v : {0x950412deu, 0u, count, 28u, 28 + 8 * count, 0u, base})le(head, v);
         return head + tab[0] + tab[1] + strings;
      };
      I18nBundle b("xx");
      load(b, file(msgs));
      EXPECT(c, b.size() == (int64)msgs.size(), "%d entries of %zu", (int)b.size(), msgs.size());
      for(auto& m : msgs)
      {
         String got = b.translate(String(m.first.c_str()));
         EXPECT(c, P(got) == m.second, "'%s' is translated to '%s'", m.first.c_str(), P(got).c_str());
         c.trans();
      }
      EXPECT(c, b.translate("Message x") == "Message x", "unknown key");
      if(n)
      {
         load(b, file({{msgs[0].first, "anders"}, {"new", "neu"}}));
         EXPECT(c, b.size() == (int64)msgs.size() + 1 && b.translate(String(msgs[0].first.c_str())) == "anders" && b.translate("new") == "neu", "a second catalogue");
         if(msgs.size() > 1)EXPECT(c, P(b.translate(String(msgs.back().first.c_str()))) == msgs.back().second, "the others are kept");
      }
      c.state(n * 4 + what * 2 + layout);
   });
}
