// mc: link -Wl,--wrap=access -Wl,--wrap=stat -Wl,--wrap=lstat -Wl,--wrap=fopen
// Files as byte streams: what is written is what is read, errors are reported, nothing leaks.
#include "lib.hpp"
#include "fastexc.hpp"
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace jm;
const char* const kProperty = "F02";

// Resources lie in /usr/share/<program>: accesses to that folder go to the scratch folder.
static std::string redirect(const char* p)
{
   if(strncmp(p, "/usr/share/", 11) != 0)return p;
   const char* t = strchr(p + 11, '/');
   return mc::scratch() + (t ? t : "/nothing");
}
extern "C"
{
   int __real_access(const char*, int);
   int __real_stat(const char*, struct stat*);
   int __real_lstat(const char*, struct stat*);
   FILE* __real_fopen(const char*, const char*);
   int __wrap_access(const char* p, int m)
   {
      return __real_access(redirect(p).c_str(), m);
   }
   int __wrap_stat(const char* p, struct stat* s)
   {
      return __real_stat(redirect(p).c_str(), s);
   }
   int __wrap_lstat(const char* p, struct stat* s)
   {
      return __real_lstat(redirect(p).c_str(), s);
   }
   FILE* __wrap_fopen(const char* p, const char* m)
   {
      return __real_fopen(redirect(p).c_str(), m);
   }
}

namespace
{
   using Bytes = std::vector<uint8>;
   struct NullBuf: std::streambuf
   {
      int overflow(int c) override
      {
         return c;
      }
   };
   std::string path(const char* name)
   {
      return mc::scratch() + "/" + name;
   }
   void put(const std::string& p, const Bytes& b)
   {
      int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if(fd < 0 || ::write(fd, b.data(), b.size()) != (ssize_t)b.size())abort();
      ::close(fd);
   }
   bool get(const std::string& p, Bytes& b)
   {
      int fd = ::open(p.c_str(), O_RDONLY);
      if(fd < 0)return false;
      struct stat st;
      fstat(fd, &st);
      b.assign(st.st_size, 0);
      ssize_t n = ::read(fd, b.data(), b.size());
      ::close(fd);
      return n == (ssize_t)b.size();
   }
   int fds()
   {
      int n = 0;
      for(int i = 0; i < 64; i++)if(fcntl(i, F_GETFD) >= 0)n++;
      return n;
   }
   std::string brief(const Bytes& b)
   {
      return b.size() <= 40 ? PB(b.data(), b.size()) : mc::fmt("%zu bytes ", b.size()) + PB(b.data(), 8) + ".." + PB(b.data() + b.size() - 8, 8);
   }
   int gStamp;
   Bytes fresh(size_t n)
   {
      Bytes b(n);
      for(size_t i = 0; i < n; i++)b[i] = (uint8)(gStamp * 41 + i * 7 + (i >> 8) + 1);
      gStamp++;
      return b;
   }
   // the model: a byte vector, a mode and a position
   struct World
   {
      std::string p;
      Stream* f = nullptr; // a File or a Resource
      bool there = false, open = false;
      int mode = 0; // 0 read, 1 write, 2 both
      Bytes m;
      int64 at = 0;
      bool big = false;
   };
   void closed(mc::Ctx& c, World& w, const char* when)
   {
      Bytes b;
      bool ok = get(w.p, b);
      EXPECT(c, ok == w.there, "%s: the file %s", when, ok ? "exists" : "does not exist");
      if(!ok)return;
      EXPECT(c, b == w.m, "%s: the file has %s, expected %s", when, brief(b).c_str(), brief(w.m).c_str());
      EXPECT(c, w.f->size() == (int64)w.m.size(), "%s: size() %lld", when, (long long)w.f->size());
   }
   void step(mc::Ctx& c, World& w)
   {
      static const int64 SMALL[] = {0, 1, 3, 6}, LARGE[] = {1, 4095, 4096, 4097, 9000};
      int64 n = w.m.size();
      switch(c.choose(8))
      {
         case 0: case 1:
         {
            int m = c.choose(3);
            c.step("open(%s)", m == 0 ? "kRead" : m == 1 ? "kWrite" : "kReadWrite");
            Status s = w.f->open(m == 0 ? FileMode::kRead : m == 1 ? FileMode::kWrite : FileMode::kReadWrite);
            c.trans();
            if(m == 1)
            {
               w.there = true;
               w.m.clear();
            }
            w.open = w.there;
            w.mode = m;
            w.at = 0;
            EXPECT(c, s == (w.open ? Status::eOK : Status::eNotFound), "open returned %d", (int)s);
            break;
         }
         case 2:
            c.step("close");
            w.f->close();
            w.open = false;
            c.trans();
            closed(c, w, "close");
            break;
         case 3: case 4:
         {
            int64 l = w.big ? LARGE[c.choose(5)] : SMALL[c.choose(4)];
            bool full = c.choose(2);
            c.step("%s(%lld)", full ? "readFully" : "read", (long long)l);
            int64 t = w.open && w.mode != 1 ? std::max<int64>(0, std::min(l, n - w.at)) : 0;
            Bytes b(l, 0xEE);
            b.shrink_to_fit();
            int64 got;
            if(full)
            {
               ByteArray a(l, 0x77);
               got = w.f->readFully(a);
               EXPECT(c, a.size() == l, "readFully changed the size");
               memcpy(b.data(), a.constData(), l);
            }
            else got = w.f->read(b.data(), l);
            c.trans();
            EXPECT(c, got == t, "read(%lld) at %lld of %lld returned %lld, expected %lld", (long long)l, (long long)w.at, (long long)n, (long long)got, (long long)t);
            for(int64 i = 0; i < l; i++)EXPECT(c, b[i] == (i < t ? w.m[w.at + i] : full ? 0x77 : 0xEE), "byte %lld read is %02x", (long long)i, b[i]);
            w.at += t;
            break;
         }
         case 5:
         {
            Bytes b = fresh(w.big ? LARGE[c.choose(5)] : SMALL[c.choose(4)]);
            c.step("write(%zu)", b.size());
            int64 t = w.open && w.mode != 0 ? b.size() : 0;
            int64 got = w.f->write(b.data(), b.size());
            c.trans();
            EXPECT(c, got == t, "write(%zu) returned %lld, expected %lld", b.size(), (long long)got, (long long)t);
            if(t)
            {
               if((int64)w.m.size() < w.at + t)w.m.resize(w.at + t, 0);
               std::copy(b.begin(), b.end(), w.m.begin() + w.at);
               w.at += t;
            }
            break;
         }
         default:
         {
            int64 P[] = {0, 2, n, n + 2, -1, n > 0 ? n - 1 : 5000};
            bool rel = c.choose(2);
            int64 p = P[c.choose(6)], d = rel ? p - w.at : p;
            c.step("%s(%lld)", rel ? "move" : "seek", (long long)d);
            bool t = threw([&] {rel ? w.f->move(d) : w.f->seek(d);});
            c.trans();
            bool ok = w.open && p >= 0;
            EXPECT(c, t == !ok, "%s", t ? "throws" : "does not report the failure");
            if(ok)w.at = p;
         }
      }
      EXPECT(c, w.f->isOpen() == w.open, "isOpen() is %d", w.f->isOpen());
      EXPECT(c, w.f->position() == (w.open ? w.at : 0), "position %lld, expected %lld", (long long)w.f->position(), (long long)(w.open ? w.at : 0));
      if(!w.open || w.mode == 0)closed(c, w, "while not written");
   }
   void sequence(mc::Ctx& c, int steps, bool big, int start, bool resource = false)
   {
      World w;
      w.p = path("f");
      w.big = big;
      gStamp = 1;
      ::unlink(w.p.c_str());
      if(start)
      {
         w.there = true;
         w.m = fresh(start == 1 ? 5 : 8195);
         put(w.p, w.m);
      }
      int before = fds();
      Resource* r = nullptr;
      if(resource)w.f = r = new Resource("f");
      else w.f = new File(w.p.c_str());
      for(int i = 0; i < steps; i++)
      {
         step(c, w);
         if(r)EXPECT(c, r->exists() == w.there, "exists() is %d", r->exists());
      }
      c.state(mc::hash(w.m.data(), w.m.size()) * 31 + w.at * 8 + w.mode * 2 + w.open);
      w.f->close();
      w.open = false;
      closed(c, w, "at the end");
      EXPECT(c, fds() == before, "%d file descriptors stay open", fds() - before);
      delete w.f;
   }
   // lines the way everybody reads a text file
   void lines(mc::Ctx& c, const std::string& text)
   {
      std::istringstream in(text);
      size_t at = 0;
      for(int i = 0;; i++)
      {
         c.trans();
         String s("garbage");
         bool ok = (bool)(in >> s);
         if(at >= text.size())
         {
            EXPECT(c, !ok, "line %d beyond the end: \"%s\"", i, P(s).c_str());
            break;
         }
         size_t e = text.find('\n', at);
         std::string want = text.substr(at, e == std::string::npos ? e : e - at);
         std::u16string w;
         for(size_t k = 0; k < want.size(); k++)
         {
            if(want[k] == '\xC3')w += (char16_t)(0xC0 + ((uint8)want[++k] & 0x3F));
            else w += (char16_t)(uint8)want[k];
         }
         EXPECT(c, ok, "line %d of %zu bytes is not read", i, want.size());
         EXPECT(c, U(s) == w, "line %d is \"%s\", expected \"%s\"", i, P(s).c_str(), P(w).c_str());
         if(e == std::string::npos)break; // the last line has no end
         at = e + 1;
      }
   }
}

struct LargeFiles
{
   struct rlimit old;
   LargeFiles()
   {
      getrlimit(RLIMIT_FSIZE, &old);
      struct rlimit now = old;
      now.rlim_cur = now.rlim_max;
      setrlimit(RLIMIT_FSIZE, &now);
   }
   ~LargeFiles()
   {
      setrlimit(RLIMIT_FSIZE, &old);
   }
};

void defineScenarios()
{
   mc::watchHandles();
   using namespace mc;
   useLibrary();
   onWorkerStart([]
   {
      static NullBuf nb;
      std::cout.rdbuf(&nb);
      signal(SIGXFSZ, SIG_IGN);
   });
   scenario("operation sequences", {3, "a missing file or one of 5 bytes; open in some mode or not at all, then 3 operations (thorough 4) of open, close, read, readFully, write, seek, move"}, [](Ctx & c)
   {
      sequence(c, tier(3, 4), false, c.choose(2));
   });
   scenario("operation sequences on an open file", {3, "5 bytes, opened for reading and writing or for writing, then 3 operations (thorough 4)"}, [](Ctx & c)
   {
      World w;
      w.p = path("f");
      gStamp = 1;
      w.m = fresh(5);
      put(w.p, w.m);
      w.there = w.open = true;
      w.mode = 1 + c.choose(2);
      int before = fds();
      w.f = new File(w.p.c_str());
      EXPECT(c, w.f->open(w.mode == 1 ? FileMode::kWrite : FileMode::kReadWrite) == Status::eOK, "open fails");
      if(w.mode == 1)w.m.clear();
      for(int i = 0; i < tier(3, 4); i++)step(c, w);
      c.state(mc::hash(w.m.data(), w.m.size()) * 31 + w.at * 8 + w.mode * 2 + w.open);
      w.f->close();
      w.open = false;
      closed(c, w, "at the end");
      EXPECT(c, fds() == before, "%d file descriptors stay open", fds() - before);
      delete w.f;
   });
   scenario("pieces around the buffer size of the C library", {3, "8195 bytes or missing, opened in every mode, then 2 operations (thorough 3) of 1, 4095, 4096, 4097 or 9000 bytes"}, [](Ctx & c)
   {
      World w;
      w.p = path("f");
      w.big = true;
      gStamp = 1;
      w.m = fresh(8195);
      put(w.p, w.m);
      w.there = w.open = true;
      w.mode = c.choose(3);
      w.f = new File(w.p.c_str());
      int before = fds();
      EXPECT(c, w.f->open(w.mode == 0 ? FileMode::kRead : w.mode == 1 ? FileMode::kWrite : FileMode::kReadWrite) == Status::eOK, "open fails");
      if(w.mode == 1)w.m.clear();
      for(int i = 0; i < tier(2, 3); i++)step(c, w);
      c.state(mc::hash(w.m.data(), w.m.size()) * 31 + w.at * 8 + w.mode * 2 + w.open);
      w.f->close();
      w.open = false;
      closed(c, w, "at the end");
      EXPECT(c, fds() == before, "%d file descriptors stay open", fds() - before);
      delete w.f;
   });
   scenario("a full disk at every byte", {2, "three writes of 1, 100 or 5000 bytes; the file cannot grow beyond every one of a set of sizes around each piece"}, [](Ctx & c)
   {
      static const int N[] = {1, 100, 5000};
      int n[3] = {N[c.choose(3)], N[c.choose(3)], N[c.choose(3)]};
      bool rw = c.choose(2);
      std::set<int> limits;
      for(int base : {0, n[0], n[0] + n[1], n[0] + n[1] + n[2], 4096, 8192})for(int d = -2; d <= 2; d++)if(base + d >= 0)limits.insert(base + d);
      for(int d = 0; d < n[0] + n[1] + n[2]; d += 997)limits.insert(d);
      for(int limit : limits)
      {
         gStamp = 1;
         std::string p = path("full");
         put(p, {});
         int before = fds();
         File f(p.c_str());
         EXPECT(c, f.open(rw ? FileMode::kReadWrite : FileMode::kWrite) == Status::eOK, "open fails");
         struct rlimit old, now;
         getrlimit(RLIMIT_FSIZE, &old);
         now = old;
         now.rlim_cur = limit;
         setrlimit(RLIMIT_FSIZE, &now);
         Bytes all;
         int64 accepted = 0;
         bool shortWrite = false;
         for(int i = 0; i < 3; i++)
         {
            Bytes b = fresh(n[i]);
            all.insert(all.end(), b.begin(), b.end());
            int64 got = f.write(b.data(), b.size());
            c.trans();
            EXPECT(c, got >= 0 && got <= n[i], "write(%d) returned %lld", n[i], (long long)got);
            accepted += got;
            if(got < n[i])
            {
               shortWrite = true;
               break;
            }
         }
         bool t = threw([&] {f.close();});
         setrlimit(RLIMIT_FSIZE, &old);
         Bytes b;
         EXPECT(c, get(p, b), "the file is gone");
         EXPECT(c, !f.isOpen(), "still open after close()");
         EXPECT(c, fds() == before, "%d file descriptors stay open", fds() - before);
         EXPECT(c, b.size() <= all.size() && std::equal(b.begin(), b.end(), all.begin()), "limit %d: other bytes in the file", limit);
         bool whole = b.size() == (size_t)(n[0] + n[1] + n[2]);
         EXPECT(c, whole || shortWrite || t, "limit %d: %zu of %zu bytes arrived, no write and no close reported it", limit, b.size(), all.size());
         EXPECT(c, !whole || (!shortWrite && !t), "limit %d: a failure reported, but everything arrived", limit);
         EXPECT(c, !threw([&] {f.close();}), "a second close() throws");
         EXPECT(c, f.open(FileMode::kRead) == Status::eOK && f.isOpen(), "cannot be opened again");
         f.close();
      }
      c.state(n[0] * 7 + n[1] * 3 + n[2] + rw);
   });
   scenario("failing opens", {1, "missing file, missing directory, file as directory, directory; every mode; also on an open File"}, [](Ctx & c)
   {
      int kind = c.choose(4), m = c.choose(3), again = c.choose(2);
      std::string d = path("dir"), f = path("plain");
      mkdir(d.c_str(), 0700);
      put(f, {1, 2, 3});
      std::string p = kind == 0 ? path("none") : kind == 1 ? path("nodir/x") : kind == 2 ? f + "/x" : d;
      ::unlink(path("none").c_str());
      int before = fds();
      FileMode mode = m == 0 ? FileMode::kRead : m == 1 ? FileMode::kWrite : FileMode::kReadWrite;
      File x((again ? f : p).c_str());
      if(again)
      {
         EXPECT(c, x.open(FileMode::kRead) == Status::eOK, "open fails");
         x.close();
         x = File(p.c_str());
      }
      Status s = Status::eOK;
      bool t = threw([&] {s = x.open(mode);});
      c.trans();
      bool created = kind == 0 && m == 1, ok = created || (kind == 3 && m == 0);
      EXPECT(c, x.isOpen() == ok, "isOpen() is %d", x.isOpen());
      if(kind == 3 && m)EXPECT(c, t || s != Status::eOK, "a directory was opened for writing");
      else EXPECT(c, !t && s == (ok ? Status::eOK : kind == 2 ? Status::eNoDirectory : Status::eNotFound), "%s %d", t ? "throws" : "status", (int)s);
      uint8 b[4] = {9, 9, 9, 9};
      EXPECT(c, x.read(b, 4) == 0 && b[0] == 9, "reads something");
      if(!ok)
      {
         EXPECT(c, x.write(b, 4) == 0, "writes something");
         EXPECT(c, threw([&] {x.seek(0);}) && threw([&] {x.move(0);}), "seek or move on a closed file");
         EXPECT(c, x.position() == 0, "position() %lld", (long long)x.position());
      }
      x.close();
      EXPECT(c, fds() == before, "%d file descriptors stay open", fds() - before);
      c.state(kind * 8 + m * 2 + again);
   });
   scenario("buffers of another size than asked for", {2, "file of 0..6 bytes, ByteArray of 0..4, length 0..8, from every position"}, [](Ctx & c)
   {
      int n = c.choose(7), size = c.choose(5), l = c.choose(9);
      gStamp = 1;
      Bytes m = fresh(n);
      put(path("f"), m);
      File f(path("f").c_str());
      f.open(FileMode::kRead);
      for(int at = 0; at <= n; at++)
      {
         f.seek(at);
         ByteArray a(size, 0x55);
         int64 got = f.readFully(a, l), t = std::min(std::min(l, size), n - at);
         c.trans();
         EXPECT(c, got == t && a.size() == size, "readFully(%d) into %d bytes at %d of %d returned %lld", l, size, at, n, (long long)got);
         for(int i = 0; i < size; i++)EXPECT(c, a.get(i) == (i < t ? m[at + i] : 0x55), "byte %d", i);
      }
      f.close();
      c.state(n * 64 + size * 9 + l);
   });
   scenario("Strings are written as UTF-8", {2, "all pairs of texts, written one after the other"}, [](Ctx & c)
   {
      static const char16_t* T[] = {u"", u"a", u"line\n", u"\u00e4\u20ac", u"\U0001F600", u"\u007f\u0080\u07ff\u0800"};
      static const char* B[] = {"", "a", "line\n", "\xC3\xA4\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\x7F\xC2\x80\xDF\xBF\xE0\xA0\x80"};
      int a = c.choose(6), b = c.choose(6);
      File f(path("s").c_str());
      f.open(FileMode::kWrite);
      for(int i : {a, b})
      {
         c.trans();
         EXPECT(c, f.Stream::write(J(T[i])) == (int64)strlen(B[i]), "write(String) count");
      }
      f.close();
      Bytes got;
      std::string want = std::string(B[a]) + B[b];
      get(path("s"), got);
      EXPECT(c, got == Bytes(want.begin(), want.end()), "%s, expected %s", brief(got).c_str(), PB(want).c_str());
      c.state(a * 6 + b);
   });
   scenario("reading lines", {3, "all texts of up to 6 / 8 of a, blank, e-acute, LF, CR read with operator>>"}, [](Ctx & c)
   {
      static const char* T[] = {"a", " ", "\xC3\xA9", "\n", "\r"};
      int n = c.choose(tier(7, 9));
      std::string s;
      for(int i = 0; i < n; i++)s += T[c.choose(5)];
      lines(c, s);
      c.state(s);
   });
   scenario("reading long lines", {2, "two lines of every length 250..260, 510..514, 1022..1026, 70000, with e-acute at the end or not, last line terminated or not"}, [](Ctx & c)
   {
      auto len = [&]()
      {
         int k = c.choose(22);
         return k < 11 ? 250 + k : k < 16 ? 499 + k : k < 21 ? 1006 + k : 70000;
      };
      int a = len(), b = len();
      int kind = c.choose(4);
      std::string s = std::string(a, 'x') + (kind & 1 ? "\xC3\xA9" : "") + "\n" + std::string(b, 'y') + (kind & 2 ? "\n" : "");
      lines(c, s);
      c.state(hash(s));
   });
   scenario("operation sequences on a Resource", {3, "a missing resource or one of 5 bytes; 3 operations (thorough 4) of open, close, read, readFully, write, seek, move"}, [](Ctx & c)
   {
      sequence(c, tier(3, 4), false, c.choose(2), true);
   });
   scenario("copies of a Resource", {1, "construct, copy, assign (also to itself) in all sequences of 4 steps over 3 variables: everything is released"}, [](Ctx & c)
   {
      leakFree(c, [&]
      {
         Resource* r[3] = {new Resource("a"), new Resource("b"), new Resource("nothing/here.txt")};
         for(int i = 0; i < 4; i++)
         {
            int k = c.choose(3), l = c.choose(3);
            if(c.choose(2))*r[k] = *r[l];
            else
            {
               Resource* n = new Resource(*r[l]);
               r[k]->release();
               r[k] = n;
            }
            c.trans();
            EXPECT(c, !r[k]->exists() && r[k]->size() == 0 && !r[k]->isOpen(), "a missing resource");
         }
         for(auto x : r)x->release();
      });
   });
   scenario("large files", {1, "sparse files: seek, move, position, write and read around 2^31, 2^32 and 5 * 2^30"}, [](Ctx & c)
   {
      const int64 base_[] = {1LL << 31, 1LL << 32, 5LL << 30};
      int64 n = base_[c.choose(3)] + c.choose(3) - 1;
      LargeFiles allow;
      int way = c.choose(3);
      std::string p = mc::scratch() + "/large";
      FILE* h = fopen(p.c_str(), "wb");
      bool sparse = h != nullptr && ftruncate(fileno(h), n) == 0;
      if(h)fclose(h);
      if(!sparse)
      {
         unlink(p.c_str());
         return;
      }
      File f(p.c_str());
      EXPECT(c, f.open(FileMode::kReadWrite) == Status::eOK, "open");
      c.trans(8);
      if(way == 0)f.seek(n - 1);
      else if(way == 1)f.seek(5), f.move(n - 6);
      else f.seek(n + 7), f.move(-8);
      EXPECT(c, f.position() == n - 1, "position is %lld instead of %lld", (long long)f.position(), (long long)n - 1);
      EXPECT(c, f.write((const uint8*)"ab", 2) == 2 && f.position() == n + 1, "write at %lld: position %lld", (long long)n - 1, (long long)f.position());
      f.move(-2);
      uint8 b[3] = {0};
      EXPECT(c, f.read(b, 3) == 2 && b[0] == 'a' && b[1] == 'b', "read at %lld", (long long)n - 1);
      f.close();
      struct stat st;
      EXPECT(c, stat(p.c_str(), &st) == 0 && (int64)st.st_size == n + 1 && f.size() == n + 1, "size is %lld", (long long)st.st_size);
      unlink(p.c_str());
      c.state(n * 3 + way);
   });
}
