// mc: link -Wl,--wrap=readdir
// File system operations, in step with the plain system calls on a twin directory.
#include "lib.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include "fastexc.hpp"
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <sys/stat.h>
#include <sys/xattr.h>
#include <unistd.h>
using namespace jm;
const char* const kProperty = "F04";

// --- extended attributes live in memory: not every scratch file system has them
namespace
{
   std::map<std::string, std::string> gAttr;
   int gBeforeReaddir = -1; // counts down, then gDisturb runs
   std::function<void()> gDisturb;
}
extern "C" ssize_t getxattr(const char* path, const char* name, void* value, size_t size)
{
   auto i = gAttr.find(std::string(path) + "\n" + name);
   if(i == gAttr.end())
   {
      errno = ENODATA;
      return -1;
   }
   if(size == 0)return i->second.size();
   if(size < i->second.size())
   {
      errno = ERANGE;
      return -1;
   }
   memcpy(value, i->second.data(), i->second.size());
   return i->second.size();
}
extern "C" int setxattr(const char* path, const char* name, const void* value, size_t size, int)
{
   if(::access(path, F_OK) != 0)return -1;
   gAttr[std::string(path) + "\n" + name] = std::string((const char*)value, size);
   return 0;
}
extern "C" int removexattr(const char* path, const char* name)
{
   return gAttr.erase(std::string(path) + "\n" + name) ? 0 : -1;
}
extern "C" struct dirent* __real_readdir(DIR*);
extern "C" struct dirent* __wrap_readdir(DIR* d)
{
   if(gBeforeReaddir == 0 && gDisturb)gDisturb();
   gBeforeReaddir--;
   return __real_readdir(d);
}

namespace
{
   const char* NAME[] = {"a", "d", "d/x", "b", "d/e", "d/e/y", "l"};
   std::string base(int twin)
   {
      return mc::scratch() + (twin ? "/twin" : "/real");
   }
   std::string at(int twin, const std::string& n)
   {
      return base(twin) + "/" + n;
   }
   void content(const std::string& p, const std::string& s)
   {
      int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0640);
      if(fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size())abort();
      ::close(fd);
   }
   // every object below the directory: name, kind, content or target
   void walk(const std::string& dir, const std::string& prefix, std::string& out)
   {
      std::set<std::string> names;
      DIR* d = opendir(dir.c_str());
      if(!d)return;
      while(struct dirent* e = __real_readdir(d))if(strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))names.insert(e->d_name);
      closedir(d);
      for(auto& n : names)
      {
         std::string p = dir + "/" + n;
         struct stat st;
         lstat(p.c_str(), &st);
         out += prefix + n;
         char buf[256];
         if(S_ISDIR(st.st_mode))
         {
            out += "/ ";
            walk(p, prefix + n + "/", out);
         }
         else if(S_ISLNK(st.st_mode))
         {
            ssize_t k = readlink(p.c_str(), buf, sizeof buf);
            out += "->" + std::string(buf, k) + " ";
         }
         else if(S_ISFIFO(st.st_mode))out += "| ";
         else
         {
            int fd = ::open(p.c_str(), O_RDONLY);
            ssize_t k = ::read(fd, buf, sizeof buf);
            ::close(fd);
            out += "=" + std::string(buf, k) + " ";
         }
      }
   }
   std::string tree(int twin)
   {
      std::string s;
      walk(base(twin), "", s);
      return s;
   }
   void setup(int start)
   {
      for(int t = 0; t < 2; t++)
      {
         std::filesystem::remove_all(base(t));
         mkdir(base(t).c_str(), 0700);
         if(start >= 1)
         {
            content(at(t, "a"), "1");
            mkdir(at(t, "d").c_str(), 0700);
         }
         if(start == 2 || start == 5)content(at(t, "d/x"), "22");
         if(start == 3)
         {
            mkdir(at(t, "d/e").c_str(), 0700);
            content(at(t, "d/e/y"), "333");
            mkfifo(at(t, "b").c_str(), 0600);
         }
         if(start == 4 && symlink("a", at(t, "l").c_str()))abort();
         if(start == 5 && symlink("d", at(t, "l").c_str()))abort();
         if(start == 6 && symlink("nowhere", at(t, "l").c_str()))abort();
      }
   }
   const char* STARTS = "an empty directory, file and directory, and these with a file in the directory, a nested directory and a pipe, a link to the file, the directory, nothing";
   // the file objects tell what is there
   void observe(mc::Ctx& c, const std::string& n)
   {
      std::string p = at(0, n);
      struct stat l, s;
      bool lok = lstat(p.c_str(), &l) == 0, sok = stat(p.c_str(), &s) == 0;
      File f(p.c_str());
      c.trans();
      EXPECT(c, f.exists() == sok, "%s: exists() is %d", n.c_str(), f.exists());
      EXPECT(c, f.isFile() == (lok && S_ISREG(l.st_mode)), "%s: isFile() is %d", n.c_str(), f.isFile());
      EXPECT(c, f.isDirectory() == (lok && S_ISDIR(l.st_mode)), "%s: isDirectory() is %d", n.c_str(), f.isDirectory());
      EXPECT(c, f.isLink() == (lok && S_ISLNK(l.st_mode)), "%s: isLink() is %d", n.c_str(), f.isLink());
      EXPECT(c, f.isPipe() == (lok && S_ISFIFO(l.st_mode)), "%s: isPipe() is %d", n.c_str(), f.isPipe());
      EXPECT(c, f.size() == (sok ? (int64)s.st_size : 0), "%s: size() is %lld", n.c_str(), (long long)f.size());
      EXPECT(c, f.canRead() == !access(p.c_str(), R_OK) && f.canWrite() == !access(p.c_str(), W_OK) && f.canExecute() == !access(p.c_str(), X_OK), "%s: canRead, canWrite, canExecute", n.c_str());
   }
   std::set<std::string> listing(mc::Ctx& c, const std::string& p, bool& null)
   {
      std::set<std::string> r;
      File f(p.c_str());
      Array<File>* a = f.listFiles();
      null = a == nullptr;
      if(!a)return r;
      for(uint32 i = 0; i < a->size(); i++)
      {
         File e = a->get(i);
         std::string n;
         for(char16_t x : U(e.name()))
         {
            if(x < 0x80)n += (char)x;
            else
            {
               n += (char)(0xC0 | x >> 6);
               n += (char)(0x80 | (x & 63));
            }
         }
         if(n == "." || n == "..")continue; // may be listed or not
         EXPECT(c, U(e.path()) == U(f.path()) + u"/" + U(e.name()), "listFiles: path %s", P(e.path()).c_str());
         EXPECT(c, r.insert(n).second, "listFiles: %s twice", n.c_str());
         struct stat st;
         EXPECT(c, e.isDirectory() == (!lstat((p + "/" + n).c_str(), &st) && S_ISDIR(st.st_mode)), "listFiles: kind of %s", n.c_str());
      }
      delete a;
      return r;
   }
   void observeList(mc::Ctx& c, const std::string& p)
   {
      std::set<std::string> want;
      struct stat st;
      bool dir = !lstat(p.c_str(), &st) && S_ISDIR(st.st_mode), null;
      if(dir)for(auto& e : std::filesystem::directory_iterator(p))want.insert(e.path().filename().string());
      auto got = listing(c, p, null);
      c.trans();
      EXPECT(c, null == !dir, "listFiles of %s: %s", p.c_str(), null ? "nothing" : "a list");
      EXPECT(c, got == want, "listFiles of %s: %zu names, expected %zu", p.c_str(), got.size(), want.size());
   }
   void step(mc::Ctx& c, int names)
   {
      int op = c.choose(3 + names);
      std::string n = NAME[c.choose(names)];
      File f(at(0, n).c_str());
      std::string before = tree(0), t = at(1, n);
      bool got, want;
      c.trans();
      if(op == 0)
      {
         c.step("createNewFile %s", n.c_str());
         got = f.createNewFile();
         int fd = ::open(t.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0666);
         want = fd >= 0;
         if(want)::close(fd);
      }
      else if(op == 1)
      {
         c.step("makeDirectory %s", n.c_str());
         got = f.makeDirectory();
         want = ::mkdir(t.c_str(), 0700) == 0;
      }
      else if(op == 2)
      {
         c.step("remove %s", n.c_str());
         got = f.remove();
         want = ::unlink(t.c_str()) == 0 || ::rmdir(t.c_str()) == 0;
      }
      else
      {
         std::string m = NAME[op - 3], to = at(0, m);
         c.step("%s renameTo %s", n.c_str(), m.c_str());
         got = f.renameTo(String(to.c_str()));
         want = ::rename(t.c_str(), at(1, m).c_str()) == 0;
         EXPECT(c, U(f.path()) == U(got ? to.c_str() : at(0, n).c_str()), "path after renaming: %s", P(f.path()).c_str());
         struct stat st;
         EXPECT(c, f.isDirectory() == (!lstat((got ? to : at(0, n)).c_str(), &st) && S_ISDIR(st.st_mode)), "object after renaming");
      }
      std::string r = tree(0), w = tree(1);
      EXPECT(c, got == want, "returned %d, expected %d (%s)", got, want, w.c_str());
      EXPECT(c, r == w, "directory has %s, expected %s", r.c_str(), w.c_str());
      EXPECT(c, got || r == before, "failed, but changed %s to %s", before.c_str(), r.c_str());
      c.state(r);
      for(int i = 0; i < 7; i++)observe(c, NAME[i]);
      observeList(c, base(0));
      observeList(c, at(0, "d"));
      observeList(c, at(0, "a"));
      observeList(c, at(0, "l"));
   }
   void tags(mc::Ctx& c, int steps, bool many)
   {
      static const char* T[] = {"red", "r", "gr\xC3\xBCn", "blue sky"};
      if(access(at(0, "b").c_str(), F_OK))
      {
         setup(0);
         content(at(0, "a"), "");
         content(at(0, "b"), "");
      }
      gAttr.clear();
      std::vector<std::u16string> m[2];
      if(many)
      {
         std::string s;
         for(int i = 0; i < 100; i++)
         {
            std::string x = mc::fmt("many%03d", i) + std::string(45, 'y');
            s += (i ? "," : "") + x;
            m[1].push_back(U(x.c_str()));
         }
         gAttr[at(0, "b") + "\nuser.xdg.tags"] = s;
      }
      for(int i = 0; i < steps; i++)
      {
         int k = many ? 1 : c.choose(2), t = c.choose(4);
         bool add = c.choose(2);
         File f(at(0, k ? "b" : "a").c_str());
         String tag(T[t]);
         c.step("%s %s %d", add ? "add" : "remove", T[t], k);
         Status s = add ? f.addTag(tag) : f.removeTag(tag);
         auto& v = m[k];
         auto p = std::find(v.begin(), v.end(), U(tag));
         if(add && p == v.end())v.push_back(U(tag));
         if(!add && p != v.end())v.erase(p);
         c.trans();
         EXPECT(c, s == Status::eOK, "status %d", (int)s);
      }
      for(int q = 0; q < 2; q++)
      {
         StringList l = File(at(0, q ? "b" : "a").c_str()).getTags();
         EXPECT(c, l.size() == (int64)m[q].size(), "%lld tags, expected %zu", (long long)l.size(), m[q].size());
         for(size_t j = 0; j < m[q].size(); j++)EXPECT(c, U(l[j]) == m[q][j], "tag %zu is %s", j, P(l[j]).c_str());
      }
      c.state(gAttr[at(0, "a") + "\nuser.xdg.tags"] + gAttr[at(0, "b") + "\nuser.xdg.tags"]);
   }
}

struct LargeFiles
{
   struct rlimit old;
   LargeFiles()
   {
      getrlimit(RLIMIT_FSIZE, &old);
      struct rlimit now = old;
      now.rlim_cur = now.rlim_max;
      setrlimit(RLIMIT_FSIZE, &now);
   }
   ~LargeFiles()
   {
      setrlimit(RLIMIT_FSIZE, &old);
   }
};

void defineScenarios()
{
   mc::watchHandles();
   using namespace mc;
   useLibrary();
   static std::string bound = std::string(STARTS) + "; 2 operations on 7 names (thorough: 3)";
   scenario("create, make directory, remove, rename", {3, bound.c_str()}, [](Ctx & c)
   {
      setup(c.choose(7));
      for(int i = 0; i < tier(2, 3); i++)step(c, 7);
   });
   scenario("longer histories", {3, "the first three start states; 3 operations on a, d, d/x (thorough: 4)"}, [](Ctx & c)
   {
      setup(c.choose(3));
      for(int i = 0; i < tier(3, 4); i++)step(c, 3);
   });
   scenario("renaming to paths in other spellings", {1, "repeated and final separators"}, [](Ctx & c)
   {
      static const char* TO[] = {"//a2", "/d//x", "/d///e", "/f/"};
      setup(2);
      int k = c.choose(4), dir = c.choose(2);
      if(dir && k == 1)c.discard();
      File f(at(0, dir ? "d" : "a").c_str());
      if(dir && k == 2)c.discard();
      std::string to = base(0) + TO[k], plain;
      for(char x : to)if(x != '/' || plain.empty() || plain.back() != '/')plain += x;
      if(plain.back() == '/')plain.pop_back();
      if(!dir && k == 3)c.discard();
      EXPECT(c, f.renameTo(String(to.c_str())), "cannot be renamed");
      c.trans();
      File g(String(plain.c_str()));
      EXPECT(c, U(f.path()) == U(plain.c_str()) && U(f.name()) == U(g.name()) && U(f.parent()) == U(g.parent()), "path %s", P(f.path()).c_str());
      EXPECT(c, f.exists() && g.exists(), "not there");
      c.state(to + char('0' + dir));
   });
   scenario("names beyond ASCII", {2, "create, write, list, rename, remove with names from two-letter combinations"}, [](Ctx & c)
   {
      static const char* L[] = {"a", " ", "\xC3\xA4", "\xC3\x9F", ".", "%", "\\", "'"};
      setup(0);
      std::string n = std::string("n") + L[c.choose(8)] + L[c.choose(8)], m = std::string("m") + L[c.choose(8)];
      std::string p = at(0, n), q = at(0, m);
      File f(p.c_str());
      c.trans(4);
      EXPECT(c, f.createNewFile() && !access(p.c_str(), F_OK) && f.exists() && !f.createNewFile(), "create %s", n.c_str());
      f.open(FileMode::kWrite);
      f.write((const uint8*)"xy", 2);
      f.close();
      observeList(c, base(0));
      EXPECT(c, f.renameTo(String(q.c_str())) && !access(q.c_str(), F_OK) && access(p.c_str(), F_OK), "rename %s to %s", n.c_str(), m.c_str());
      EXPECT(c, f.size() == 2, "size");
      observeList(c, base(0));
      EXPECT(c, f.remove() && access(q.c_str(), F_OK), "remove %s", m.c_str());
      c.state(n + m);
   });
   scenario("createNewFile keeps what is there", {1, "files of 0..3 bytes, a directory, links to a file and to nothing, also while the file is open for writing"}, [](Ctx & c)
   {
      int kind = c.choose(7), open = c.choose(2);
      setup(0);
      std::string p = at(0, "f");
      if(kind < 4)content(p, std::string(kind, 'c'));
      if(kind == 4)mkdir(p.c_str(), 0700);
      if(kind >= 5 && symlink(kind == 5 ? "g" : "none", p.c_str()))abort();
      if(kind == 5)content(at(0, "g"), "gg");
      if(open && kind > 3)c.discard();
      std::string before = tree(0);
      File f(p.c_str());
      if(open)
      {
         f.open(FileMode::kReadWrite);
         f.write((const uint8*)"zz", 2);
      }
      EXPECT(c, !f.createNewFile(), "reported as new");
      c.trans();
      if(open)
      {
         EXPECT(c, f.isOpen() && f.position() == 2, "the open stream was disturbed");
         f.close();
         before = "f=zz" + std::string(kind > 2 ? kind - 2 : 0, 'c') + " ";
      }
      EXPECT(c, tree(0) == before, "now %s, before %s", tree(0).c_str(), before.c_str());
      c.state(kind * 2 + open);
   });
   scenario("time of the last modification", {2, "seconds before and after 1970 and 2038, every fraction boundary"}, [](Ctx & c)
   {
      static const int64 SEC[] = {0, 1, 86399, 951782400, 2147483647LL, 2147483648LL, 4102444800LL, -1, -86400};
      static const int64 NS[] = {0, 1, 999, 1000, 999999, 1000000, 1999999, 500000000, 999000000, 999999999};
      setup(1);
      int s = c.choose(9), n = c.choose(10), d = c.choose(2);
      std::string p = at(0, d ? "d" : "a");
      struct timespec t[2] = {{(time_t)SEC[s], 0}, {(time_t)SEC[s], (long)NS[n]}};
      if(utimensat(AT_FDCWD, p.c_str(), t, 0))abort();
      struct stat st;
      stat(p.c_str(), &st);
      if(st.st_mtim.tv_sec != t[1].tv_sec || st.st_mtim.tv_nsec != t[1].tv_nsec)c.discard(); // not representable here
      Date got = File(p.c_str()).lastModified();
      c.trans();
      EXPECT(c, got.time() == SEC[s] * 1000 + NS[n] / 1000000, "%lld s %lld ns: %lld ms", (long long)SEC[s], (long long)NS[n], (long long)got.time());
      Date none = File(at(0, "missing").c_str()).lastModified();
      EXPECT(c, none.time() == 0 || none.isEmpty(), "time of a missing file: %lld", (long long)none.time());
      c.state(s * 20 + n * 2 + d);
   });
   scenario("listing while the directory changes", {2, "0..4 files; before each reading of an entry a file is created, removed or renamed; every file that is there all the time is listed once"}, [](Ctx & c)
   {
      setup(0);
      int n = c.choose(5), when = c.choose(20), what = c.choose(3);
      for(int i = 0; i < n; i++)content(at(0, fmt("f%d", i)), "");
      gDisturb = [&]
      {
         if(what == 0)for(int i = 0; i < 3; i++)content(at(0, fmt("new%d", i)), "");
         if(what == 1 && n)::unlink(at(0, "f0").c_str());
         if(what == 2 && n)::rename(at(0, "f0").c_str(), at(0, "other").c_str());
      };
      gBeforeReaddir = when;
      std::set<std::string> got;
      bool null = false;
      bool t = threw([&] {got = listing(c, base(0), null);});
      gDisturb = nullptr;
      c.trans();
      EXPECT(c, !t && !null, "%s", t ? "throws" : "no list");
      for(int i = what ? 1 : 0; i < n; i++)EXPECT(c, got.count(fmt("f%d", i)), "f%d is missing", i);
      for(auto& s : got)EXPECT(c, s.rfind("f", 0) == 0 || s.rfind("new", 0) == 0 || s == "other", "lists %s", s.c_str());
      c.state(n * 60 + when * 3 + what);
   });
   scenario("large directories", {1, "0, 1, 2, 50, 257, 1000 entries, files and directories"}, [](Ctx & c)
   {
      static const int N[] = {0, 1, 2, 50, 257, 1000};
      setup(0);
      int n = N[c.choose(6)];
      for(int i = 0; i < n; i++)
      {
         if(i % 3 == 2)mkdir(at(0, fmt("entry%d", i)).c_str(), 0700);
         else content(at(0, fmt("entry%d", i)), "");
      }
      observeList(c, base(0));
      c.state(n);
   });
   scenario("order", {2, "all pairs and triples of 7 names in every start state: compareTo is a total order, equal only for the same path"}, [](Ctx & c)
   {
      setup(c.choose(7));
      std::vector<File> f;
      for(auto n : NAME)f.push_back(File(at(0, n).c_str()));
      int i = c.choose(7);
      for(int j = 0; j < 7; j++)
      {
         int x = f[i].compareTo(f[j]), y = f[j].compareTo(f[i]);
         c.trans(2);
         EXPECT(c, (x == 0) == (i == j) && (x < 0) == (y > 0), "%s, %s: %d, %d", NAME[i], NAME[j], x, y);
         for(int k = 0; k < 7; k++)EXPECT(c, !(x < 0 && f[j].compareTo(f[k]) < 0) || f[i].compareTo(f[k]) < 0, "%s < %s < %s", NAME[i], NAME[j], NAME[k]);
      }
      c.state(tree(0) + NAME[i]);
   });
   scenario("tags", {3, "all sequences of 3 / 4 additions and removals of 4 tags on two files"}, [](Ctx & c)
   {
      tags(c, tier(3, 4), false);
   });
   scenario("many tags", {2, "all sequences of 2 / 3 additions and removals on files of which one has 5000 bytes of tags beforehand"}, [](Ctx & c)
   {
      tags(c, tier(2, 3), true);
   });
   scenario("large files", {1, "sparse files of 2^31, 2^32 and 5 * 2^30 bytes and one byte less and more: their size"}, [](Ctx & c)
   {
      const int64 base_[] = {1LL << 31, 1LL << 32, 5LL << 30};
      int64 n = base_[c.choose(3)] + c.choose(3) - 1;
      LargeFiles allow;
      setup(0);
      std::string p = at(0, "large");
      content(p, "");
      if(truncate(p.c_str(), n) != 0)return; // no sparse files here
      File f(p.c_str());
      c.trans();
      EXPECT(c, f.size() == n, "size() of a file of %lld bytes is %lld", (long long)n, (long long)f.size());
      EXPECT(c, f.remove(), "remove");
      c.state(n);
   });
}
