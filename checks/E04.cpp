// Zip archives: reading what an independent writer made, surviving damage, writing.
#include "lib.hpp"
#include <sys/resource.h>
#include "fastexc.hpp"
#include <fcntl.h>
#include <filesystem>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
using namespace jm;
const char* const kProperty = "E04";

namespace
{
   using Bytes = std::string;
   struct Entry
   {
      std::u16string name;
      Bytes utf8, data, extra, localExtra, comment;
      int method = 0;     // 0 stored, 1..3 deflated: stored blocks, fixed codes, own codes
      bool descriptor = false;
   };
   struct Archive
   {
      std::vector<Entry> e;
      Bytes comment, front;
      bool reverse = false; // directory in another order than the data
   };
   void le(Bytes& b, uint32_t v, int n)
   {
      for(int i = 0; i < n; i++)b += (char)(v >> 8 * i);
   }
   Bytes deflated(const Bytes& d, int how)
   {
      z_stream z = {};
      deflateInit2(&z, how == 1 ? 0 : 9, Z_DEFLATED, -15, 9, how == 2 ? Z_FIXED : Z_DEFAULT_STRATEGY);
      Bytes out(d.size() + d.size() / 2 + 200, 0);
      z.next_in = (Bytef*)d.data();
      z.avail_in = d.size();
      z.next_out = (Bytef*)&out[0];
      z.avail_out = out.size();
      if(deflate(&z, Z_FINISH) != Z_STREAM_END)abort();
      out.resize(z.total_out);
      deflateEnd(&z);
      return out;
   }
   // appnote.txt, sections 4.3.7 (local header), 4.3.9 (descriptor), 4.3.12 (directory), 4.3.16 (end)
   Bytes make(const Archive& a)
   {
      Bytes z = a.front;
      std::vector<Bytes> dir;
      for(auto& e : a.e)
      {
         Bytes raw = e.method ? deflated(e.data, e.method) : e.data;
         uint32_t crc = ::crc32(0, (const Bytef*)e.data.data(), e.data.size()), at = z.size();
         auto common = [&](Bytes & b, bool local)
         {
            bool hide = local && e.descriptor;
            le(b, 20, 2);
            le(b, 0x800 | (e.descriptor ? 8 : 0), 2);
            le(b, e.method ? 8 : 0, 2);
            le(b, 0x5A2B1234, 4);
            le(b, hide ? 0 : crc, 4);
            le(b, hide ? 0 : raw.size(), 4);
            le(b, hide ? 0 : e.data.size(), 4);
            le(b, e.utf8.size(), 2);
            le(b, local ? e.localExtra.size() : e.extra.size(), 2);
         };
         le(z, 0x04034b50, 4);
         common(z, true);
         z += e.utf8 + e.localExtra + raw;
         if(e.descriptor)
         {
            le(z, 0x08074b50, 4);
            le(z, crc, 4);
            le(z, raw.size(), 4);
            le(z, e.data.size(), 4);
         }
         Bytes d;
         le(d, 0x02014b50, 4);
         le(d, 0x0314, 2);
         common(d, false);
         le(d, e.comment.size(), 2);
         le(d, 0, 2);
         le(d, 0, 2);
         le(d, 0, 4);
         le(d, at, 4);
         dir.push_back(d + e.utf8 + e.extra + e.comment);
      }
      if(a.reverse)std::reverse(dir.begin(), dir.end());
      uint32_t start = z.size();
      for(auto& d : dir)z += d;
      uint32_t size = z.size() - start;
      le(z, 0x06054b50, 4);
      le(z, 0, 4);
      le(z, a.e.size(), 2);
      le(z, a.e.size(), 2);
      le(z, size, 4);
      le(z, start, 4);
      le(z, a.comment.size(), 2);
      return z + a.comment;
   }
   std::u16string wide(const Bytes& u)
   {
      std::u16string r;
      for(size_t i = 0; i < u.size(); i++)
      {
         uint8_t b = u[i];
         if(b < 0x80)r += b;
         else if(b < 0xE0)r += (char16_t)((b & 31) << 6 | (u[++i] & 63));
         else
         {
            r += (char16_t)((b & 15) << 12 | (u[i + 1] & 63) << 6 | (u[i + 2] & 63));
            i += 2;
         }
      }
      return r;
   }
   Bytes text(int kind)
   {
      static const int N[] = {0, 1, 100, 5000};
      Bytes b;
      uint32_t x = 12345 + kind;
      for(int i = 0; i < N[kind]; i++)
      {
         x = x * 1103515245 + 12345;
         b += kind == 3 && i % 7 == 0 ? (char)(x >> 24) : (char)("content of an entry "[i % 20]);
      }
      return b;
   }
   Bytes readAll(mc::Ctx& c, Stream* s, int window)
   {
      Bytes r;
      EXPECT(c, s != nullptr, "no stream");
      s->open(FileMode::kRead);
      Bytes buf(window, 0);
      for(int64 n; (n = s->read((uint8*)&buf[0], window)) > 0;)r.append(buf, 0, n);
      return r;
   }
   void compare(mc::Ctx& c, ZipFile& z, const Archive& a)
   {
      EXPECT(c, z.entryCount() == a.e.size(), "%u entries, expected %zu", z.entryCount(), a.e.size());
      EXPECT(c, U(z.comment()) == wide(a.comment), "comment \"%s\"", P(z.comment()).c_str());
      LinkedListIterator it = z.entryIterator();
      for(size_t i = 0; i < a.e.size(); i++)
      {
         const Entry& e = a.e[a.reverse ? a.e.size() - 1 - i : i];
         EXPECT(c, it.hasNext(), "iterator ends after %zu", i);
         ZipEntry* x = static_cast<ZipEntry*>(it.next());
         c.trans();
         EXPECT(c, U(x->name()) == e.name, "entry %zu is \"%s\"", i, P(x->name()).c_str());
         EXPECT(c, x->uncompressedSize() == e.data.size(), "size of entry %zu is %u", i, x->uncompressedSize());
         EXPECT(c, x->isDirectory() == (!e.name.empty() && e.name.back() == '/'), "isDirectory of \"%s\" is %d", P(x->name()).c_str(), x->isDirectory());
         Stream* s = z.stream(x);
         EXPECT(c, s && s->size() == (int64)e.data.size(), "stream of entry %zu has another size", i);
         Bytes got = readAll(c, s, i % 2 ? 7 : 8192);
         EXPECT(c, got == e.data, "content of entry %zu (%s) differs: %zu bytes, expected %zu", i, e.method ? "deflated" : "stored", got.size(), e.data.size());
         s->release();
      }
      EXPECT(c, !it.hasNext(), "iterator continues");
      for(auto& e : a.e)
      {
         // the first of that name
         ZipEntry* x = z.entry(J(e.name));
         EXPECT(c, x && U(x->name()) == e.name, "entry(\"%s\")", P(e.name).c_str());
         Stream* s = z.stream(x);
         Bytes got = readAll(c, s, 100);
         const Entry* first = nullptr;
         for(size_t i = 0; i < a.e.size() && !first; i++)
         {
            auto& y = a.e[a.reverse ? a.e.size() - 1 - i : i];
            if(y.name == e.name)first = &y;
         }
         EXPECT(c, got == first->data, "entry(\"%s\") delivers something else", P(e.name).c_str());
         s->release();
      }
      EXPECT(c, z.entry("not there") == nullptr && z.stream(nullptr) == nullptr, "an entry that does not exist");
   }
   void file(const std::string& p, const Bytes& b)
   {
      int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if(fd < 0 || ::write(fd, b.data(), b.size()) != (ssize_t)b.size())abort();
      ::close(fd);
   }
   void readArchive(mc::Ctx& c, const Archive& a, bool disk)
   {
      Bytes z = make(a);
      mc::scratch();
      leakFree(c, [&]
      {
         Stream* s;
         if(disk)
         {
            file(mc::scratch() + "/in.zip", z);
            s = new File((mc::scratch() + "/in.zip").c_str());
         }
         else s = new MemoryStream((uint8*)&z[0], z.size());
         {
            ZipFile f(s);
            f.open();
            compare(c, f, a);
            f.close();
         }
         s->release();
      });
      c.state(mc::hash(z));
   }
   Entry entry(int name, int data, int method)
   {
      static const char* NAME[] = {"a", "dir/", "dir/\xC3\xA4\xE2\x82\xAC.txt", "x", "", "", "/"};
      Entry e;
      e.utf8 = name == 4 ? Bytes(300, 'n') + ".bin" : NAME[name];
      e.name = wide(e.utf8);
      e.data = text(data);
      e.method = method;
      return e;
   }
   // anything goes, except access outside the data and streams that promise more than they have
   void survive(mc::Ctx& c, const Bytes& z)
   {
      std::unique_ptr<uint8[]> exact(new uint8[z.size()]);
      memcpy(exact.get(), z.data(), z.size());
      mc::leakStart();
      for(int twice = 0; twice < 2; twice++)
      {
         MemoryStream s(exact.get(), z.size());
         ZipFile f(&s);
         c.trans();
         if(threw([&] {f.open();}))continue;
         LinkedListIterator it = f.entryIterator();
         uint32 n = 0;
         while(it.hasNext())
         {
            ZipEntry* e = static_cast<ZipEntry*>(it.next());
            n++;
            e->name();
            e->isDirectory();
            Stream* x = nullptr;
            threw([&] {x = f.stream(e);});
            if(!x)continue;
            EXPECT(c, x->size() == e->uncompressedSize(), "stream of %lld bytes for an entry of %u", (long long)x->size(), e->uncompressedSize());
            EXPECT(c, readAll(c, x, 512).size() == e->uncompressedSize(), "stream delivers another number of bytes");
            x->release();
         }
         EXPECT(c, n == f.entryCount(), "entryCount");
         f.comment();
      }
      mc::leakStop();
      // the library keeps the text of the last error
      EXPECT(c, mc::leakBlocks() < 2, "%zu blocks (%zu bytes) were never released", mc::leakBlocks(), mc::leakBytes());
   }
   struct NullBuf: std::streambuf
   {
      int overflow(int c) override
      {
         return c;
      }
   };
   Archive sample(int k)
   {
      Archive a;
      if(k == 1)a.e = {entry(0, 2, 0)};
      if(k == 2)a.e = {entry(2, 2, 3)};
      if(k == 3)
      {
         a.e = {entry(1, 0, 0), entry(0, 1, 2), entry(3, 2, 1)};
         a.e[1].extra = a.e[1].localExtra = "ext.";
         a.e[2].comment = "note";
         a.comment = "the end";
      }
      if(k == 4)
      {
         a.e = {entry(0, 2, 3), entry(3, 2, 0)};
         a.e[0].descriptor = true;
         a.front = "#!/bin/sh\n";
      }
      return a;
   }
   // --- the written archive, read strictly
   uint32_t get(const Bytes& b, size_t at, int n)
   {
      uint32_t v = 0;
      for(int i = 0; i < n; i++)v |= (uint32_t)(uint8_t)b.at(at + i) << 8 * i;
      return v;
   }
   void strict(mc::Ctx& c, const Bytes& z, const std::vector<std::pair<Bytes, Bytes>>& want)
   {
      EXPECT(c, z.size() >= 22, "%zu bytes", z.size());
      size_t end = z.size() - 22;
      EXPECT(c, get(z, end, 4) == 0x06054b50 && get(z, end + 20, 2) == 0 && get(z, end + 4, 4) == 0, "the file does not end with the end record");
      EXPECT(c, get(z, end + 8, 2) == want.size() && get(z, end + 10, 2) == want.size(), "%u entries", get(z, end + 10, 2));
      size_t d = get(z, end + 16, 4);
      EXPECT(c, d + get(z, end + 12, 4) == end, "directory at %zu with %u bytes, end record at %zu", d, get(z, end + 12, 4), end);
      size_t next = 0;
      for(auto& w : want)
      {
         EXPECT(c, get(z, d, 4) == 0x02014b50, "directory signature");
         size_t h = get(z, d + 42, 4), nl = get(z, d + 28, 2);
         EXPECT(c, h == next, "local header at %zu, expected %zu", h, next);
         EXPECT(c, get(z, h, 4) == 0x04034b50, "local signature");
         EXPECT(c, z.compare(d + 46, nl, w.first) == 0 && z.compare(h + 30, get(z, h + 26, 2), w.first) == 0, "name %s", w.first.c_str());
         uint32_t crc = ::crc32(0, (const Bytef*)w.second.data(), w.second.size());
         for(size_t f : {d + 10, h + 8})
         {
            EXPECT(c, get(z, f, 2) == 0, "method");
            // not encrypted, no data descriptor (bits 1, 2 mean nothing for stored entries, bit 11: name in UTF-8)
            EXPECT(c, (get(z, f - 2, 2) & ~0x806u) == 0, "flags %04x of %s", get(z, f - 2, 2), w.first.c_str());
            EXPECT(c, (get(z, f - 4, 2) & 0xff) <= 20, "version %u needed to extract %s", get(z, f - 4, 2), w.first.c_str());
            EXPECT(c, get(z, f + 6, 4) == crc, "CRC %08x, expected %08x", get(z, f + 6, 4), crc);
            EXPECT(c, get(z, f + 10, 4) == w.second.size() && get(z, f + 14, 4) == w.second.size(), "sizes %u, %u", get(z, f + 10, 4), get(z, f + 14, 4));
         }
         EXPECT(c, get(z, d + 34, 2) == 0, "%s starts on another disk", w.first.c_str());
         size_t at = h + 30 + get(z, h + 26, 2) + get(z, h + 28, 2);
         EXPECT(c, z.compare(at, w.second.size(), w.second) == 0, "content of %s", w.first.c_str());
         next = at + w.second.size();
         d += 46 + nl + get(z, d + 30, 2) + get(z, d + 32, 2);
      }
      EXPECT(c, d == end, "directory of %u bytes", get(z, end + 12, 4));
      EXPECT(c, next == get(z, end + 16, 4), "unused bytes before the directory");
   }
}

void defineScenarios()
{
   mc::watchHandles();
   using namespace mc;
   useLibrary();
   onWorkerStart([]
   {
      static NullBuf nb;
      std::cout.rdbuf(&nb);
   });
   scenario("one entry", {2, "names (plain, directory, non-ASCII, 304 characters, none, a single slash), contents of 0, 1, 100, 5000 bytes, stored or deflated in three ways, with or without extra fields (local and central), comment, data descriptor, text in front; from memory or disk"}, [](Ctx & c)
   {
      Archive a;
      int n = c.choose(7);
      a.e = {entry(n, c.choose(4), c.choose(4))};
      int x = c.choose(3);
      if(x)a.e[0].extra = Bytes("ab\2\0xy", 6);
      if(x == 2)a.e[0].localExtra = Bytes("ab\7\0abcdefg", 11);
      if(c.choose(2))a.e[0].comment = "caf\xC3\xA9";
      a.e[0].descriptor = c.choose(2);
      if(c.choose(2))a.front = "PK\5\6 is not the end here";
      readArchive(c, a, c.choose(2));
   });
   scenario("several entries", {2, "0, 2 and 3 entries, all combinations of four names (also twice the same), contents and methods, in file order or reverse"}, [](Ctx & c)
   {
      Archive a;
      int n = c.choose(3);
      if(n)n++;
      for(int i = 0; i < n; i++)a.e.push_back(entry(c.choose(3), 1 + c.choose(2), i == 2 ? 3 : c.choose(2) * 2));
      a.reverse = c.choose(2);
      readArchive(c, a, false);
   });
   scenario("many entries", {1, "23 numbers of entries up to 1000, stored and deflated; opened twice"}, [](Ctx & c)
   {
      static const int N[] = {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 1000};
      int n = N[c.choose(23)];
      Archive a;
      for(int i = 0; i < n; i++)
      {
         Entry e = entry(0, i % 3, i % 4);
         e.utf8 = fmt("e%d", i);
         e.name = wide(e.utf8);
         a.e.push_back(e);
      }
      readArchive(c, a, c.choose(2));
      Bytes z = make(a);
      leakFree(c, [&]
      {
         MemoryStream s((uint8*)&z[0], z.size());
         ZipFile f(&s);
         for(int i = 0; i < 2; i++)
         {
            f.open();
            compare(c, f, a);
            f.close();
         }
      });
   });
   scenario("comments of the archive", {1, "none, text, one that contains end records at every place, 65535 bytes; 0, 1, 2 entries"}, [](Ctx & c)
   {
      Archive a;
      int n = c.choose(3), k = c.choose(9);
      for(int i = 0; i < n; i++)a.e.push_back(entry(i, 2, i));
      Bytes fake("PK\5\6\0\0\0\0\1\0\1\0\1\0\0\0\0\0\0\0\7\0", 22);
      for(auto& x : fake)if(!x)x = 1; // the comment is a text
      if(k == 1)a.comment = "a comment \xC3\xA4";
      if(k == 2)a.comment = fake;
      if(k == 3)a.comment = "x" + fake;
      if(k == 4)a.comment = fake + Bytes(30, 'x') + fake + Bytes(21, 'y');
      if(k == 5)a.comment = Bytes(65535, 'c');
      if(k == 6)a.comment = "PK\5\6";
      if(k == 7)a.comment = Bytes(21, 'x') + "PK\5\6";
      if(k == 8)a.comment = fake + fake + fake;
      readArchive(c, a, c.choose(2));
   });
   scenario("opening again", {1, "open, list and close up to 3 times gives the same entries"}, [](Ctx & c)
   {
      Archive a = sample(c.choose(5));
      int times = 1 + c.choose(3);
      Bytes z = make(a);
      leakFree(c, [&]
      {
         MemoryStream s((uint8*)&z[0], z.size());
         ZipFile f(&s);
         for(int i = 0; i < times; i++)
         {
            f.open();
            compare(c, f, a);
            f.close();
         }
      });
      c.state(hash(z) + times);
   });
   scenario("every truncation", {2, "each of 5 sample archives cut at every byte, at the end or at the beginning"}, [](Ctx & c)
   {
      Bytes z = make(sample(c.choose(5)));
      int n = c.choose(900);
      if(n > (int)z.size())c.discard();
      survive(c, c.choose(2) ? z.substr(0, n) : z.substr(n));
      c.state(z.size() * 1000 + n);
   });
   scenario("every byte replaced", {2, "each byte of each sample archive set to 0, 1, 7F, 80, FF, one more, one less, other lowest bit (thorough: all 256 values)"}, [](Ctx & c)
   {
      Bytes z = make(sample(c.choose(5)));
      size_t at = c.choose(900);
      if(at >= z.size())c.discard();
      static const uint8_t V[] = {0, 1, 0x7F, 0x80, 0xFF};
      for(int k = 0; k < tier(8, 256); k++)
      {
         Bytes y = z;
         y[at] = thorough() ? (char)k : k < 5 ? (char)V[k] : k == 5 ? y[at] + 1 : k == 6 ? y[at] - 1 : y[at] ^ 1;
         survive(c, y);
      }
      c.state(z.size() * 1000 + at);
   });
   scenario("every two fields replaced", {3, "each pair of size, offset, length, count, method and signature fields of a sample archive set to 0, 1, 22, 255, 65535, the archive's length, 2^31-1, 2^32-1"}, [](Ctx & c)
   {
      int k = 1 + c.choose(tier(2, 4));
      Archive a = sample(k);
      Bytes z = make(a);
      std::vector<std::pair<size_t, int>> fields;
      for(size_t i = 0; i + 4 <= z.size(); i++)
      {
         uint32_t s = get(z, i, 4);
         if(s == 0x04034b50)for(auto f : {std::pair<int, int>{0, 4}, {8, 2}, {18, 4}, {22, 4}, {26, 2}, {28, 2}})fields.push_back({i + f.first, f.second});
         if(s == 0x02014b50)for(auto f : {std::pair<int, int>{0, 4}, {10, 2}, {20, 4}, {24, 4}, {28, 2}, {30, 2}, {32, 2}, {42, 4}})fields.push_back({i + f.first, f.second});
         if(s == 0x06054b50)for(auto f : {std::pair<int, int>{8, 2}, {10, 2}, {12, 4}, {16, 4}, {20, 2}})fields.push_back({i + f.first, f.second});
      }
      size_t f = c.choose(60), g = c.choose(60);
      if(f >= fields.size() || g > f)c.discard();
      uint32_t V[] = {0, 1, 22, 255, 65535, (uint32_t)z.size(), 0x7fffffff, 0xffffffff};
      for(uint32_t v : V)for(uint32_t w : V)
         {
            Bytes y = z, p, q;
            le(p, v, fields[f].second);
            le(q, w, fields[g].second);
            y.replace(fields[f].first, p.size(), p);
            y.replace(fields[g].first, q.size(), q);
            survive(c, y);
         }
      c.state(k * 3600 + f * 60 + g);
   });
   scenario("writing archives", {3, "0..3 entries, contents of 0, 1, 100, 5000 bytes in 1, 2 or 3 pieces or from a file, over a missing, shorter or longer file; read strictly, by an independent reader and by ZipFile"}, [](Ctx & c)
   {
      std::string dir = scratch() + "/out", p = dir + "/o.zip";
      std::filesystem::remove_all(dir);
      mkdir(dir.c_str(), 0700);
      int before = c.choose(3), n = c.choose(4);
      if(before)file(p, Bytes(before == 1 ? 10 : 40000, 'Z'));
      std::vector<std::pair<Bytes, Bytes>> want;
      Archive a;
      std::vector<ZipEntry*> es;
      {
         File out(p.c_str());
         ZipOutputFile z(&out);
         z.open();
         for(int i = 0; i < n; i++)
         {
            Entry e = entry(i == 0 ? 2 : i == 1 ? 0 : 4, i < 2 ? c.choose(4) : 2, 0);
            a.e.push_back(e);
            want.push_back({e.utf8, e.data});
            ZipEntry* x = new ZipEntry(J(e.name));
            es.push_back(x);
            z.putNextEntry(x);
            int how = c.choose(4);
            Bytes d = "<<" + e.data + ">>";
            size_t s = e.data.size();
            c.step("entry of %zu bytes, way %d", s, how);
            if(how == 3)
            {
               file(dir + "/in", e.data);
               File in((dir + "/in").c_str());
               z.writeAndClose(&in);
               EXPECT(c, !in.isOpen(), "the read file stays open");
               ::unlink((dir + "/in").c_str());
            }
            else
            {
               size_t at = 0;
               for(int k = 0; k <= how; k++)
               {
                  size_t len = k == how ? s - at : s / 3;
                  z.write((uint8*)&d[0], 2 + at, len);
                  at += len;
               }
               z.closeEntry();
            }
            c.trans();
         }
         z.close();
         EXPECT(c, !out.isOpen(), "the archive stays open");
      }
      std::set<std::string> names;
      for(auto& e : std::filesystem::directory_iterator(dir))names.insert(e.path().filename().string());
      EXPECT(c, names == std::set<std::string> {"o.zip"}, "%zu files are left", names.size());
      int fd = ::open(p.c_str(), O_RDONLY);
      struct stat st;
      fstat(fd, &st);
      Bytes z(st.st_size, 0);
      if(::read(fd, &z[0], z.size()) != (ssize_t)z.size())abort();
      ::close(fd);
      strict(c, z, want);
      File in(p.c_str());
      ZipFile f(&in);
      f.open();
      compare(c, f, a);
      f.close();
      for(auto x : es)x->release();
      c.state(hash(z) + before);
   });
   scenario("writing many and large entries", {1, "127, 128, 255, 256, 300 entries; entries of 255..257, 65535..65537, 200000 bytes, names of 255..257 characters"}, [](Ctx & c)
   {
      static const int N[] = {127, 128, 255, 256, 300}, L[] = {255, 256, 257, 65535, 65536, 65537, 200000};
      std::string dir = scratch() + "/out2", p = dir + "/o.zip";
      std::filesystem::remove_all(dir);
      mkdir(dir.c_str(), 0700);
      int k = c.choose(12);
      std::vector<std::pair<Bytes, Bytes>> want;
      Archive a;
      std::vector<ZipEntry*> es;
      File out(p.c_str());
      ZipOutputFile z(&out);
      z.open();
      for(int i = 0; i < (k < 5 ? N[k] : 3); i++)
      {
         Entry e;
         e.utf8 = k < 5 ? fmt("e%d", i) : Bytes(254 + i, 'n');
         e.name = wide(e.utf8);
         for(int j = 0; j < (k < 5 ? i % 3 : L[k - 5]); j++)e.data += (char)(j * 7 + (j >> 8) + i);
         a.e.push_back(e);
         want.push_back({e.utf8, e.data});
         ZipEntry* x = new ZipEntry(J(e.name));
         es.push_back(x);
         z.putNextEntry(x);
         z.write((uint8*)&e.data[0], 0, e.data.size());
         z.closeEntry();
         c.trans();
      }
      z.close();
      int fd = ::open(p.c_str(), O_RDONLY);
      struct stat st;
      fstat(fd, &st);
      Bytes b(st.st_size, 0);
      if(::read(fd, &b[0], b.size()) != (ssize_t)b.size())abort();
      ::close(fd);
      strict(c, b, want);
      File in(p.c_str());
      ZipFile f(&in);
      f.open();
      compare(c, f, a);
      f.close();
      for(auto x : es)x->release();
      c.state(hash(b));
   });
   scenario("limits of the format", {1, "65535, 65536, 65537 entries; names of 65535, 65536, 65541 bytes; files of 4 GiB and a little more: written and read back, or refused"}, [](Ctx & c)
   {
      int k = c.choose(8);
      static const int kCount[] = {65535, 65536, 65537};
      static const int kName[] = {65535, 65536, 65541};
      int64 n = k < 3 ? kCount[k] : 2;
      std::string dir = scratch() + "/out3", p = dir + "/o.zip";
      std::filesystem::remove_all(dir);
      mkdir(dir.c_str(), 0700);
      std::vector<ZipEntry*> es;
      File out(p.c_str());
      bool refused = false;
      auto name = [&](int64 i)
      {
         return i == 0 && k >= 3 && k < 6 ? Bytes((size_t)kName[k - 3], 'n') : fmt("e%d", (int)i);
      };
      if(k >= 6)
      {
         struct rlimit old, unl;
         getrlimit(RLIMIT_FSIZE, &old);
         unl = old;
         unl.rlim_cur = unl.rlim_max;
         setrlimit(RLIMIT_FSIZE, &unl);
         int fd = ::open((dir + "/in").c_str(), O_RDWR | O_CREAT, 0600);
         if(ftruncate(fd, (1LL << 32) + (k == 6 ? 0 : 5)) != 0)abort();
         ::close(fd);
         setrlimit(RLIMIT_FSIZE, &old);
      }
      {
         ZipOutputFile z(&out);
         z.open();
         refused = threw([&]
         {
            for(int64 i = 0; i < n; i++)
            {
               ZipEntry* x = new ZipEntry(String(name(i).c_str()));
               es.push_back(x);
               z.putNextEntry(x);
               c.trans();
               if(k >= 6 && i == 0)
               {
                  File in((dir + "/in").c_str());
                  z.writeAndClose(&in);
               }
               else
               {
                  uint8 b[] = {(uint8)i, (uint8)(i >> 8)};
                  z.write(b, 0, i % 3);
                  z.closeEntry();
               }
            }
            z.close();
         });
      }
      if(out.isOpen())out.close();
      EXPECT(c, access((p + ".tmp").c_str(), F_OK) != 0, "a temporary file is left");
      EXPECT(c, !refused || (k != 0 && k != 3), "%s is refused", k == 0 ? "an archive of 65535 entries" : "a name of 65535 bytes");
      EXPECT(c, refused || k < 6, "a file of more than 4 GiB was accepted");
      if(!refused)
      {
         File in(p.c_str());
         ZipFile f(&in);
         f.open();
         EXPECT(c, f.entryCount() == n, "%lld entries were written without complaint, %lld are read", (long long)n, (long long)f.entryCount());
         LinkedListIterator it = f.entryIterator();
         for(int64 i = 0; i < n; i++)
         {
            ZipEntry* e = static_cast<ZipEntry*>(it.next());
            EXPECT(c, P(e->name()) == name(i), "entry %lld is called '%s'", (long long)i, P(e->name()).substr(0, 100).c_str());
            if(n > 10 && i % 97)continue;
            Stream* s = f.stream(e);
            uint8 b[8] = {0};
            EXPECT(c, s->read(b, 8) == i % 3 && (i % 3 < 1 || b[0] == (uint8)i) && (i % 3 < 2 || b[1] == (uint8)(i >> 8)), "contents of entry %lld", (long long)i);
            s->release();
         }
         f.close();
      }
      for(auto x : es)x->release();
      std::filesystem::remove_all(dir);
      c.state(k);
   });
}
