// Path names: normalising, taking apart and putting together.
#include "lib.hpp"
#include "fastexc.hpp"
#include <unistd.h>
using namespace jm;
const char* const kProperty = "F03";

namespace
{
   using S = std::u16string;
   const char16_t LETTERS[] = {'/', '.', 'a', 0xE4};
   S text(mc::Ctx& c, int max, int letters = 4)
   {
      int n = c.choose(max + 1);
      S s;
      for(int i = 0; i < n; i++)s += LETTERS[c.choose(letters)];
      return s;
   }
   // an independent description: the components and whether the path starts at the root
   struct Path
   {
      bool root = false;
      std::vector<S> part;
      explicit Path(const S& s)
      {
         root = !s.empty() && s[0] == '/';
         S cur;
         for(char16_t x : s + u"/")
         {
            if(x != '/')cur += x;
            else if(!cur.empty())
            {
               part.push_back(cur);
               cur.clear();
            }
         }
      }
      S join(size_t n) const
      {
         S r = root ? u"/" : u"";
         for(size_t i = 0; i < n; i++)r += (i ? u"/" : u"") + part[i];
         return r;
      }
      S str() const
      {
         return join(part.size());
      }
      S name() const
      {
         return part.empty() ? u"" : part.back();
      }
      S parent() const
      {
         return part.empty() ? u"" : join(part.size() - 1);
      }
      S ext() const
      {
         size_t d = name().rfind(u'.');
         return d == S::npos ? u"" : name().substr(d + 1);
      }
   };
   void same(mc::Ctx& c, const String& got, const S& want, const char* what, const S& in)
   {
      EXPECT(c, U(got) == want, "%s of \"%s\" is \"%s\", expected \"%s\"", what, P(in).c_str(), P(got).c_str(), P(want).c_str());
   }
   void check(mc::Ctx& c, const File& f, const Path& p, const S& in)
   {
      c.trans();
      same(c, f.path(), p.str(), "path()", in);
      same(c, f.absolutePath(), p.str(), "absolutePath()", in);
      same(c, f.name(), p.name(), "name()", in);
      same(c, f.parent(), p.parent(), "parent()", in);
      same(c, f.extension(), p.ext(), "extension()", in);
      EXPECT(c, f.isHidden() == (!p.name().empty() && p.name()[0] == '.'), "isHidden() of \"%s\"", P(in).c_str());
      EXPECT(c, f.isAbsolute() == p.root, "isAbsolute() of \"%s\"", P(in).c_str());
      EXPECT(c, f.isNull() == p.str().empty(), "isNull() of \"%s\"", P(in).c_str());
   }
}

void defineScenarios()
{
   mc::watchHandles();
   using namespace mc;
   useLibrary();
   scenario("all paths", {3, "all texts of up to 9 / 11 of /, ., a, a-umlaut"}, [](Ctx & c)
   {
      S s = text(c, tier(9, 11));
      String js = J(s);
      File f(js);
      Path p(s);
      check(c, f, p, s);
      EXPECT(c, U(js) == s, "the argument was changed");
      File g(f), h;
      check(c, g, p, s);
      EXPECT(c, h.isNull() && h.path().isEmpty() && h.name().isEmpty(), "File() has a path");
      h = f;
      check(c, h, p, s);
      // normalising again changes nothing
      check(c, File(f.path()), p, s);
      // put together again
      if(!p.part.empty() && (p.root || p.part.size() > 1))
      {
         check(c, File(f.parent(), f.name()), p, s);
         check(c, File(File(f.parent()), f.name()), p, s);
      }
      c.state(P(p.str()));
   });
   scenario("parent and child", {4, "all parents and children of up to 5 / 6 of /, ., a"}, [](Ctx & c)
   {
      S a = text(c, tier(5, 6), 3), b = text(c, tier(5, 6), 3);
      if(b.empty())
      {
         EXPECT(c, threw([&] {File f(J(a), String());}) && threw([&] {File f(File(J(a)), String());}), "an empty child is accepted");
         return;
      }
      Path p(a + u"/" + b);
      check(c, File(J(a), J(b)), p, a + u" + " + b);
      check(c, File(File(J(a)), J(b)), p, a + u" + " + b);
      c.state(P(p.str()));
   });
   scenario("long paths", {2, "up to 40 components of every length 1..20 with 1..3 separators between and behind"}, [](Ctx & c)
   {
      int n = 1 + c.choose(40), l = 1 + c.choose(20), seps = 1 + c.choose(3), end = c.choose(4), lead = c.choose(2);
      S s = lead ? u"/" : u"";
      for(int i = 0; i < n; i++)
      {
         S part(l, (char16_t)('a' + i % 26));
         if(l > 2)part[l - 2] = '.';
         s += part + S(i < n - 1 ? seps : end, u'/');
      }
      check(c, File(J(s)), Path(s), s);
      c.state(hash(P(s)));
   });
   scenario("the program's own places", {1, "executable, current directory, user directory for several values of HOME"}, [](Ctx & c)
   {
      static const char* H[] = {"/", "/home/x", "/home//x/", "/h.d/\xC3\xA4"};
      const char* h = H[c.choose(4)];
      char buf[4096];
      ssize_t n = readlink("/proc/self/exe", buf, sizeof buf);
      std::string exe(buf, n);
      size_t s = exe.rfind('/');
      EXPECT(c, U(ExecPath()) == U(exe.c_str()) && U(ExecName()) == U(exe.substr(s + 1).c_str()) && U(ExecDir()) == U(exe.substr(0, s).c_str()), "%s, %s, %s", P(ExecPath()).c_str(), P(ExecName()).c_str(), P(ExecDir()).c_str());
      EXPECT(c, getcwd(buf, sizeof buf) && U(currentDir().path()) == U(buf), "currentDir()");
      setenv("HOME", h, 1);
      S home = u"";
      for(const char* q = h; *q; q++)
      {
         if(*q == '\xC3')home += 0xC0 + (*++q & 0x3F);
         else home += (char16_t) * q;
      }
      check(c, UserDir(), Path(home), home);
      S pd = home + u"/." + U(exe.substr(s + 1).c_str());
      check(c, PropertyDir(), Path(pd), pd);
      c.trans(4);
      c.state(h);
   });
}
