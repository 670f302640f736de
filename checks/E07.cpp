// Preferences: what is set is returned, also after saving and loading.
#include "lib.hpp"
#include <filesystem>
#include <sys/wait.h>
#include <unistd.h>
#include "fastexc.hpp"
using namespace jm;
using namespace mc;
const char* const kProperty = "E07";

namespace
{
   typedef std::u16string Str;
   struct NullBuf: public std::streambuf
   {
      int overflow(int c) override
      {
         return c;
      }
   };
   String path(int n = 0)
   {
      return String((scratch() + mc::fmt("/p%d.properties", n)).c_str());
   }
   std::string bytes(const String& p)
   {
      std::string r;
      FILE* f = fopen(p.toCString().constData(), "rb");
      if(!f)return "(none)";
      char b[4096];
      size_t n;
      while((n = fread(b, 1, sizeof b, f)) > 0)r.append(b, n);
      fclose(f);
      return r;
   }
   void put(const String& p, const std::string& data)
   {
      FILE* f = fopen(p.toCString().constData(), "wb");
      fwrite(data.data(), 1, data.size(), f);
      fclose(f);
   }
   // plain spaces around a value are not kept by the file format
   Str stored(const Str& v)
   {
      size_t a = v.find_first_not_of(u' '), b = v.find_last_not_of(u' ');
      return a == Str::npos ? Str() : v.substr(a, b - a + 1);
   }
   typedef std::map<Str, Str> Model;
   void compare(Ctx& c, const Preferences& p, const Model& m, const char* when)
   {
      EXPECT(c, p.size() == (int64)m.size(), "%s: %d entries instead of %zu", when, (int)p.size(), m.size());
      for(auto& e : m)
      {
         String k = J(e.first);
         EXPECT(c, p.hasValue(k), "%s: '%s' is missing", when, P(e.first).c_str());
         EXPECT(c, U(p.value(k)) == e.second, "%s: '%s' is '%s' instead of '%s'", when, P(e.first).c_str(), P(p.value(k)).c_str(), P(e.second).c_str());
         EXPECT(c, U(p.value(k, "dflt")) == (e.second.empty() ? U("dflt") : e.second), "%s: '%s' with default", when, P(e.first).c_str());
      }
   }
   // set, save, load, save, load
   void cycle(Ctx& c, Model m)
   {
      c.trans();
      String f = path();
      Preferences p;
      for(auto& e : m)
      {
         if(c.verbose)c.step("setValue '%s' '%s'", P(e.first).c_str(), P(e.second).c_str());
         p.setValue(J(e.first), J(e.second));
      }
      compare(c, p, m, "set");
      p.save(File(f));
      compare(c, p, m, "after saving");
      for(auto& e : m)e.second = stored(e.second);
      Preferences q;
      q.load(File(f));
      compare(c, q, m, "loaded");
      q.save(File(f));
      compare(c, q, m, "saved again");
      Preferences r;
      r.load(File(f));
      compare(c, r, m, "loaded again");
   }
   const std::vector<Str> ALPHA = {u"\\", u"n", u"t", u"\n", u"\r", u"\t", u"=", u" ", u"\u00e9", u"r", u"a", u"\U0001F600", u"#", u"\"", u":"};
}

void defineScenarios()
{
   mc::watchHandles();
   onWorkerStart([]
   {
      static NullBuf nothing;
      std::cout.rdbuf(&nothing);
      System::init("");
   });
   scenario("every value", {2, "all values of 0..4 / 0..5 units of backslash, n, t, r, a, line feed, carriage return, tab, =, space, e acute, an emoji, # \" :"}, [](Ctx & c)
   {
      int n = c.choose(tier(4, 5));
      Str s;
      for(int i = 0; i < n; i++)s += ALPHA[c.choose((int)ALPHA.size())];
      Model m;
      m[u"none"] = s;
      for(size_t i = 0; i < ALPHA.size(); i++)
      {
         m[Str(u"key") + (char16_t)(u'a' + i)] = s + ALPHA[i];
      }
      cycle(c, m);
      c.state(P(s));
   });
   scenario("every key", {2, "all sets of two keys of 1..3 units of letters, dot, backslash, inner space and tab, #, quote, colon, non-ASCII"}, [](Ctx & c)
   {
      static const Str K[] = {u"a", u"B", u".", u"\\", u"#", u"\"", u":", u"\u20ac", u"\U0001F600", u"n", u"a b", u"a\tb"};
      Model m;
      for(int k = 0; k < 2; k++)
      {
         Str s;
         int n = 1 + c.choose(k == 0 ? tier(2, 3) : 2);
         for(int i = 0; i < n; i++)s += K[c.choose(12)];
         m[s] = mc::fmt("v%d", k) == "v0" ? Str(u"first = value") : Str(u"\\second");
      }
      cycle(c, m);
      for(auto& e : m)c.state(P(e.first));
   });
   scenario("every history", {2, "up to 5 / 6 operations: set one of 3 keys to one of 4 values, save to one of 2 files, load one of them into the same or a new object"}, [](Ctx & c)
   {
      static const Str VAL[] = {u"", u"x\\n\ny", u"7", u"\u00e4\t"};
      auto p = std::make_unique<Preferences>();
      Model m;
      std::optional<Model> file[2];
      for(int i = 0; i < 2; i++)
      {
         ::remove(path(i).toCString().constData());
      }
      int depth = tier(5, 6);
      for(int i = 0; i < depth; i++)
      {
         int op = c.choose(10);
         if(op == 0)break;
         c.trans();
         if(op <= 4)
         {
            Str k = op == 4 ? u"other" : Str(1, (char16_t)(u'a' + op - 1));
            Str v = VAL[(op + i) % 4];
            c.step("set %s to '%s'", P(k).c_str(), P(v).c_str());
            p->setValue(J(k), J(v));
            m[k] = v;
         }
         else if(op <= 6)
         {
            c.step("save to file %d", op - 5);
            p->save(File(path(op - 5)));
            file[op - 5] = m;
         }
         else if(op <= 8)
         {
            c.step("load file %d", op - 7);
            p->load(File(path(op - 7)));
            if(file[op - 7])for(auto& e : *file[op - 7])m[e.first] = e.second;
         }
         else
         {
            c.step("new object");
            p = std::make_unique<Preferences>();
            m.clear();
         }
         compare(c, *p, m, "history");
      }
      std::string st;
      for(auto& e : m)st += P(e.first) + "=" + P(e.second) + ";";
      c.state(st);
   });
   scenario("typed values", {1, "all powers of two and neighbours, both signs, as int64 and double; bool, literals; defaults; values of another type"}, [](Ctx & c)
   {
      int kind = c.choose(6), shift = c.choose(64), delta = c.choose(3), sign = c.choose(2), reload = c.choose(2);
      int64 v = (int64)(((uint64)1 << shift) + delta - 1);
      if(sign)v = (int64)(~(uint64)v + 1);
      double d = std::ldexp(1.0 + 0.25 * (delta - 1), shift - 12) * (sign ? -1 : 1);
      Preferences p0, p1;
      switch(kind)
      {
         case 0: p0.setValue("k", v); break;
         case 1: p0.setValue("k", d); break;
         case 2: p0.setValue("k", (bool)(delta == 1)); break;
         case 3: p0.setValue("k", "literal"); break;
         case 4: p0.setValue("k", String("no number")); break;
      }
      p0.setValue("empty", String());
      if(reload)
      {
         p0.save(File(path()));
         p1.load(File(path()));
      }
      Preferences& p = reload ? p1 : p0;
      switch(kind)
      {
         case 0:
            EXPECT(c, p.valueInt("k", 5) == v, "%lld instead of %lld", (long long)p.valueInt("k", 5), (long long)v);
            EXPECT(c, P(p.value("k")) == mc::fmt("%lld", (long long)v), "text of %lld", (long long)v);
            break;
         case 1:
            EXPECT(c, std::fabs(p.valueDouble("k", 5) - d) <= 1e-6 * std::fabs(d) + 1e-9, "%.17g instead of %.17g", p.valueDouble("k", 5), d);
            break;
         case 2:
            EXPECT(c, p.valueBool("k", delta != 1) == (delta == 1), "bool");
            EXPECT(c, p.value("k") == (delta == 1 ? "true" : "false"), "text of bool");
            break;
         case 3:
            EXPECT(c, p.value("k") == "literal", "a literal is stored as '%s'", P(p.value("k")).c_str());
            break;
         case 4:
            EXPECT(c, p.valueInt("k", v) == v && !p.valueBool("k", true), "a text as int and bool");
            break;
         default:
            EXPECT(c, !p.hasValue("k") && p.value("k") == "" && p.value("k", "D") == "D", "unset key");
            EXPECT(c, p.valueInt("k", v) == v && p.valueDouble("k", d) == d && p.valueBool("k", sign) == (bool)sign, "defaults of an unset key");
      }
      EXPECT(c, p.hasValue("empty") && p.value("empty") == "" && p.value("empty", "D") == "D" && p.valueInt("empty", v) == v && p.valueDouble("empty", d) == d && p.valueBool("empty", sign) == (bool)sign, "empty value");
      c.trans();
      c.state(kind * 1000 + shift * 12 + delta * 4 + sign * 2 + reload);
   });
   scenario("every file", {2, "all files of up to 3 / 4 lines out of 14, with three line separators: white space around keys and values, escapes, lines without a key, repeated keys, a missing separator at the end"}, [](Ctx & c)
   {
      struct L
      {
         const char* line;
         const char16_t* key;
         const char16_t* value;
      };
      static const L LINES[] = {{"a=1", u"a", u"1"}, {"a = 2 ", u"a", u"2"}, {"\tb\t=\tx y\t", u"b", u"x y"}, {"b=", u"b", u""}, {"=x", nullptr, nullptr}, {"comment", nullptr, nullptr}, {"", nullptr, nullptr}, {"   ", nullptr, nullptr},
         {"c==", u"c", u"="}, {"c=a\\tb\\\\t\\n", u"c", u"a\tb\\t\n"}, {"c=\\n\\r\\\\", u"c", u"\n\r\\"}, {"c=\\x\\", u"c", u"\\x\\"}, {"\xc3\xa4=\xe2\x82\xac", u"\u00e4", u"\u20ac"}, {"k k=\\\\\\\\n", u"k k", u"\\\\n"}
      };
      static const char* const SEP[] = {"\n", "\r\n", "\r"};
      int n = c.choose(tier(4, 5)), sep = c.choose(3), last = c.choose(2);
      std::string data;
      Model m;
      for(int i = 0; i < n; i++)
      {
         const L& l = LINES[c.choose(14)];
         data += l.line;
         if(i + 1 < n || last)data += SEP[sep];
         if(l.key)m[l.key] = l.value;
      }
      put(path(), data);
      Preferences p;
      p.load(File(path()));
      compare(c, p, m, data.c_str());
      EXPECT(c, bytes(path()) == data, "loading changed the file");
      c.trans();
      c.state(data);
   });
   scenario("memory", {1, "set, replace (also by and of empty texts), save, load and remove; nothing leaks, also through System"}, [](Ctx & c)
   {
      int n = c.choose(12), rep = c.choose(3), load = c.choose(2), empty = c.choose(3);
      scratch();
      leakFree(c, [&]
      {
         Preferences p;
         for(int r = 0; r <= rep; r++)for(int i = 0; i < n; i++)p.setValue(String("k") + String::valueOf((int64)i), empty && r % 2 == empty - 1 ? String() : String::valueOf((int64)r));
         EXPECT(c, p.size() == n, "size");
         if(load)
         {
            p.save(File(path()));
            p.load(File(path()));
            EXPECT(c, p.size() == n, "size");
         }
      });
      c.trans();
      c.state(n * 18 + rep * 6 + load * 3 + empty);
   });
   scenario("places", {0, "missing file, missing folder (created), file in a place that cannot be written (logged, nothing thrown)"}, [](Ctx & c)
   {
      int k = c.choose(3);
      Preferences p;
      p.setValue("a", "b");
      static int serial = 0;
      std::string dir = scratch() + mc::fmt("/d%d", serial++);
      if(k == 0)
      {
         Preferences q;
         q.load(File(String((dir + "/none").c_str())));
         EXPECT(c, q.size() == 0, "entries out of a missing file");
      }
      else if(k == 1)
      {
         File f(String((dir + "/p").c_str()));
         p.save(f);
         Preferences q;
         q.load(f);
         compare(c, q, {{u"a", u"b"}}, "new folder");
      }
      else
      {
         File f(String((dir + "/deeper/p").c_str()));
         EXPECT(c, !threw([&] {p.save(f);}), "save throws");
         EXPECT(c, !f.exists() && p.value("a") == "b", "file in a missing folder");
      }
      c.trans();
      c.state(k);
   });
   scenario("many and long entries", {0, "60 sizes up to 65536 (keys: 1025): that many keys, characters per key and per value, and escapes in a value"}, [](Ctx & c)
   {
      int n = farLengths()[c.choose((int)farLengths().size())], what = c.choose(4);
      if((what == 0 && n > 1025) || n > 70000 || (n > 32768 && n != 65536))return;
      Model m;
      if(what == 0)for(int i = 0; i < n; i++)m[U(mc::fmt("key.%d", i * 7919 % 100003).c_str())] = U(mc::fmt("value %d", i).c_str());
      if(what == 1 && n)m[Str(n, u'k')] = u"v", m[Str(n, u'k') + u"2"] = u"w";
      if(what == 2)
      {
         for(int i = 0; i < n; i++)m[u"long"] += (char16_t)(i % 3 ? 'a' + i % 26 : 0x3b1 + i % 20);
         m[u"other"] = u"x";
      }
      if(what == 3)for(int i = 0; i < n; i++)m[u"escapes"] += i % 3 == 0 ? u"\\" : i % 3 == 1 ? u"\n" : u"\t";
      cycle(c, m);
      c.state(n * 4 + what);
   });
   scenario("runs of a program", {3, "2 runs (processes) of up to 2 steps, the second up to 1 / 2: set a key to one of 2 values, set another, remove, save; ended by quit or without; 2 bundles; a third run looks"}, [](Ctx & c)
   {
      // every run starts with what was saved last under the name of the bundle
      const Str key[] = {u"width", u"\u00e9"}, value[] = {u"1", u"a=b\\c\n", u"\u4e2d"};
      std::string home = scratch() + "/home";
      std::filesystem::remove_all(home);
      std::filesystem::create_directories(home);
      setenv("HOME", home.c_str(), 1);
      Model saved[2];
      std::string trace;
      for(int r = 0; r < 3; r++)
      {
         int bundle = r ? c.choose(2) : 0, n = r == 2 ? 0 : c.choose((r ? tier(1, 2) : 2) + 1), step[3] = {0};
         for(int i = 0; i < n; i++)step[i] = c.choose(5);
         bool quit = r < 2 && c.choose(2) == 0;
         Model m = saved[bundle], before = m;
         for(int i = 0; i < n; i++)
         {
            if(step[i] < 3)m[key[step[i] / 2]] = value[step[i]];
            else if(step[i] == 3)m.erase(key[0]);
            else saved[bundle] = m;
         }
         if(quit)saved[bundle] = m;
         trace += mc::fmt("|%d:", bundle);
         for(int i = 0; i < n; i++)trace += mc::fmt("%d", step[i]);
         trace += quit ? "q" : "-";
         c.step("run %s", trace.c_str());
         c.trans();
         int fd[2];
         if(pipe(fd))abort();
         pid_t pid = fork();
         if(pid == 0)
         {
            std::string said = "ok";
            System::init(bundle ? "org.two" : "org.one");
            Preferences* p = System::preferences();
            auto same = [&](const Model & w, const char* when)
            {
               if(said != "ok")return;
               if(p == nullptr)said = "no preferences";
               else if(p->size() != (int64)w.size())said = mc::fmt("%s: %d entries instead of %zu", when, (int)p->size(), w.size());
               else for(auto& e : w)if(U(p->value(J(e.first))) != e.second)said = mc::fmt("%s: '%s' is '%s' instead of '%s'", when, P(e.first).c_str(), P(p->value(J(e.first))).c_str(), P(e.second).c_str());
            };
            same(before, "at the start");
            for(int i = 0; p && i < n; i++)
            {
               if(step[i] < 3)p->setValue(J(key[step[i] / 2]), J(value[step[i]]));
               else if(step[i] == 3)delete (String*)p->remove(J(key[0]));
               else System::savePreferences();
            }
            same(m, "at the end");
            if(quit)
            {
               System::quit();
               if(System::preferences() != nullptr)said = "preferences after quit()";
            }
            if(write(fd[1], said.data(), said.size()) < 0)_exit(1);
            _exit(0);
         }
         close(fd[1]);
         std::string said;
         char b[1024];
         ssize_t k;
         while((k = read(fd[0], b, sizeof b)) > 0)said.append(b, (size_t)k);
         close(fd[0]);
         int st = 0;
         waitpid(pid, &st, 0);
         EXPECT(c, said == "ok" && WIFEXITED(st) && WEXITSTATUS(st) == 0, "runs %s: %s (status %d)", trace.c_str(), said.c_str(), st);
      }
      c.state(trace);
   });
}
