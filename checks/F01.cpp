// MemoryStream: a fixed-size byte file.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "F01";

namespace
{
   struct World
   {
      MemoryStream* s = nullptr;
      std::vector<uint8> m; // the bytes
      int64 at = 0, high = 0;
      int stamp = 1;
      uint8* raw = nullptr;
   };
   const int64 HUGE64 = 0x7fffffffffffffffLL;
   void observe(mc::Ctx& c, World& w)
   {
      c.trans();
      EXPECT(c, w.s->position() == w.at, "position %lld, expected %lld", (long long)w.s->position(), (long long)w.at);
      EXPECT(c, w.s->size() == (int64)w.m.size(), "size %lld", (long long)w.s->size());
      EXPECT(c, w.s->buffer() == w.raw, "buffer() moved");
      EXPECT(c, w.s->isOpen(), "isOpen()");
      EXPECT(c, w.m.empty() || !memcmp(w.raw, w.m.data(), w.m.size()), "bytes %s, expected %s", PB(w.raw, w.m.size()).c_str(), PB(w.m.data(), w.m.size()).c_str());
      EXPECT(c, w.s->mWritelength == w.high, "mWritelength %lld, expected %lld", (long long)w.s->mWritelength, (long long)w.high);
   }
   // a length around the rest of the stream
   int64 length(mc::Ctx& c, World& w)
   {
      int64 rest = (int64)w.m.size() - w.at;
      switch(c.choose(6))
      {
         case 0: return 0;
         case 1: return 1;
         case 2: return rest;
         case 3: return rest + 1;
         case 4: return rest > 0 ? rest - 1 : 2;
         default: return HUGE64;
      }
   }
   void step(mc::Ctx& c, World& w)
   {
      int64 n = w.m.size(), rest = n - w.at;
      switch(c.choose(8))
      {
         case 0:
         {
            int64 l = length(c, w), t = std::min(l, rest);
            c.step("read(%lld)", (long long)l);
            std::vector<uint8> b(t, 0xEE);
            b.shrink_to_fit();
            int64 got = w.s->read(b.data(), l); // the memory is as large as what may arrive
            EXPECT(c, got == t, "read(%lld) returned %lld, expected %lld", (long long)l, (long long)got, (long long)t);
            EXPECT(c, !t || !memcmp(b.data(), &w.m[w.at], t), "read delivered %s", PB(b.data(), t).c_str());
            w.at += t;
            break;
         }
         case 1:
         {
            int64 l = length(c, w), t = std::min(l, rest);
            if(l == HUGE64)l = n + 3;
            t = std::min(l, rest);
            c.step("readFully(%lld)", (long long)l);
            ByteArray a(l, 0x11);
            int64 got = w.s->Stream::readFully(a);
            EXPECT(c, got == t, "readFully returned %lld, expected %lld", (long long)got, (long long)t);
            EXPECT(c, a.size() == l, "readFully resized the array");
            for(int64 i = 0; i < l; i++)EXPECT(c, a.get(i) == (i < t ? w.m[w.at + i] : 0x11), "readFully: byte %lld is %02x", (long long)i, a.get(i));
            w.at += t;
            break;
         }
         case 2:
         {
            // the array and the length differ
            int64 size = c.choose(3), l = length(c, w), t = std::min(std::min(l, size), rest);
            c.step("readFully(array of %lld, %lld)", (long long)size, (long long)l);
            ByteArray a(size, 0x11);
            int64 got = w.s->readFully(a, l);
            EXPECT(c, got == t, "readFully returned %lld, expected %lld", (long long)got, (long long)t);
            for(int64 i = 0; i < size; i++)EXPECT(c, a.get(i) == (i < t ? w.m[w.at + i] : 0x11), "readFully: byte %lld is %02x", (long long)i, a.get(i));
            w.at += t;
            break;
         }
         case 3:
         {
            int64 l = length(c, w), t = std::min(l, rest);
            c.step("write(%lld)", (long long)l);
            std::vector<uint8> b(t);
            for(auto& x : b)x = (uint8)(0x40 + w.stamp++);
            b.shrink_to_fit();
            int64 got = w.s->write(b.data(), l);
            EXPECT(c, got == t, "write(%lld) returned %lld, expected %lld", (long long)l, (long long)got, (long long)t);
            std::copy(b.begin(), b.end(), w.m.begin() + w.at);
            w.at += t;
            if(t)w.high = std::max(w.high, w.at);
            break;
         }
         case 4:
         {
            static const char* T[] = {"", "a", "\xC3\xA4\xE2\x82\xAC"};
            std::string x = T[c.choose(3)];
            int64 t = std::min((int64)x.size(), rest);
            c.step("write(String of %zu bytes)", x.size());
            int64 got = w.s->Stream::write(String(x.c_str()));
            EXPECT(c, got == t, "write(String) returned %lld, expected %lld", (long long)got, (long long)t);
            std::copy(x.begin(), x.begin() + t, w.m.begin() + w.at);
            w.at += t;
            if(t)w.high = std::max(w.high, w.at);
            break;
         }
         case 5:
         {
            int64 P[] = {0, 1, n - 1, n, n + 1, -1, HUGE64, -HUGE64 - 1};
            int64 p = P[c.choose(8)];
            c.step("seek(%lld)", (long long)p);
            w.s->seek(p);
            if(p >= 0 && p <= n)w.at = p;
            break;
         }
         case 6:
         {
            int64 D[] = {0, 1, -1, rest, rest + 1, -w.at, -w.at - 1, HUGE64, -HUGE64 - 1};
            int64 d = D[c.choose(9)];
            c.step("move(%lld)", (long long)d);
            w.s->move(d);
            if(d >= -w.at && d <= rest)w.at += d;
            break;
         }
         default:
            if(c.choose(2))
            {
               c.step("open");
               EXPECT(c, w.s->open(FileMode::kRead) == Status::eOK, "open fails");
               w.high = 0;
            }
            else
            {
               c.step("close");
               w.s->close();
            }
            w.at = 0;
      }
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("operation sequences", {3, "streams of 0, 1, 2, 5 bytes, owning their memory or not; 3 operations (thorough 4) with lengths and positions around the end, 2^63-1 and negative"}, [](Ctx & c)
   {
      static const int N[] = {0, 1, 2, 5};
      World w;
      int n = N[c.choose(4)];
      bool owns = c.choose(2);
      w.raw = new uint8[n];
      for(int i = 0; i < n; i++)w.raw[i] = (uint8)(0xA0 + i);
      w.m.assign(w.raw, w.raw + n);
      w.s = new MemoryStream(w.raw, n, owns);
      observe(c, w);
      for(int i = 0; i < tier(3, 4); i++)
      {
         step(c, w);
         observe(c, w);
      }
      c.state(fmt("%d %d %lld %lld ", n, owns, (long long)w.at, (long long)w.high) + PB(w.m.data(), w.m.size()));
      w.s->release();
      if(!owns)
      {
         EXPECT(c, !n || !memcmp(w.raw, w.m.data(), n), "memory changed by the destructor");
         delete[] w.raw;
      }
   });
   scenario("copying through a small window", {2, "every content length 0..12, every window 1..13; read or readFully until the end, written into streams of length 0..13"}, [](Ctx & c)
   {
      int n = c.choose(13), win = 1 + c.choose(13), cap = c.choose(14), full = c.choose(2);
      std::vector<uint8> src(n), dst(cap, 0xEE);
      for(int i = 0; i < n; i++)src[i] = (uint8)(i * 29 + 3);
      MemoryStream a(src.data(), n), b(dst.data(), cap);
      a.open(FileMode::kRead);
      b.open(FileMode::kWrite);
      int64 total = 0, stored = 0;
      for(int turn = 0; turn < 40; turn++)
      {
         ByteArray buf(win, 0);
         int64 got = full ? a.Stream::readFully(buf) : a.read((uint8*)buf.data(), win);
         if(got == 0)break;
         c.trans();
         EXPECT(c, got == std::min(win, n - (int)total), "piece of %lld", (long long)got);
         total += got;
         stored += b.write((const uint8*)buf.constData(), got);
      }
      EXPECT(c, total == n && stored == std::min(n, cap), "%lld bytes read, %lld written", (long long)total, (long long)stored);
      for(int i = 0; i < cap; i++)EXPECT(c, dst[i] == (i < n ? src[i] : 0xEE), "byte %d", i);
      EXPECT(c, b.mWritelength == stored, "mWritelength");
      c.state(fmt("%d %d %d %d", n, win, cap, full));
   });
   scenario("large streams", {1, "63 sizes up to 1025 and 4095..4097, 65535..65537, 100000; written in pieces of 1, 7, 256, 4096 bytes or at once, read back in pieces of another size, from every eighth of it"}, [](Ctx & c)
   {
      std::vector<int> len = lengths();
      for(int n : {4095, 4096, 4097, 65535, 65536, 65537, 100000})len.push_back(n);
      int n = len[c.choose((int)len.size())];
      const int P[] = {1, 7, 256, 4096, 1 << 20};
      int wp = P[c.choose(5)], rp = P[c.choose(5)];
      std::vector<uint8> mem(n, 0xEE), src(n);
      mem.shrink_to_fit();
      for(int i = 0; i < n; i++)src[i] = (uint8)(i * 31 + i / 256 * 7 + 1);
      MemoryStream s(mem.data(), n, false);
      s.open(FileMode::kWrite);
      for(int at = 0; at < n;)
      {
         int k = std::min(wp, n - at);
         int64 got = s.write(src.data() + at, k);
         EXPECT(c, got == k, "write of %d at %d returned %lld", k, at, (long long)got);
         at += k;
         EXPECT(c, s.position() == at && s.mWritelength == at, "position %lld after %d bytes", (long long)s.position(), at);
      }
      EXPECT(c, mem == src && s.size() == n, "bytes written");
      uint8 one = 0;
      EXPECT(c, s.write(&one, 1) == 0 && mem == src, "a byte behind the end was written");
      for(int part = 0; part < 8; part++)
      {
         int from = (int)((int64)n * part / 8);
         if(part % 2)s.seek(from);
         else s.move(from - s.position());
         EXPECT(c, s.position() == from, "position");
         std::vector<uint8> all;
         std::vector<uint8> buf(std::min(rp, n + 1));
         while(true)
         {
            int64 got = s.read(buf.data(), (int64)buf.size());
            EXPECT(c, got == std::min<int64>(buf.size(), n - from - (int64)all.size()), "read returned %lld", (long long)got);
            if(got == 0)break;
            all.insert(all.end(), buf.begin(), buf.begin() + got);
         }
         EXPECT(c, all.size() == (size_t)(n - from) && std::equal(all.begin(), all.end(), src.begin() + from), "bytes from %d", from);
         c.trans();
      }
      ByteArray whole(n, 0);
      s.seek(0);
      EXPECT(c, s.Stream::readFully(whole) == n && (n == 0 || !memcmp(whole.constData(), src.data(), n)), "readFully");
      c.state(n);
   });
}
