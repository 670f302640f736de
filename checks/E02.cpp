// Inflater and Deflater.
// mc: link -lz
#include "lib.hpp"
#include "fastexc.hpp"
#include <zlib.h>
using namespace jm;
const char* const kProperty = "E02";

namespace
{
   typedef std::string B;
   // --- the implementation
   struct Result
   {
      bool ok = false;
      B data;
      int64 total = -1;
      bool finished = false;
   };
   Result inflateLib(const B& s, bool raw)
   {
      std::vector<uint8> in(s.begin(), s.end()); // exactly as long as the data
      in.shrink_to_fit();
      Result r;
      uint8* out = nullptr;
      int64 n = 0;
      r.ok = !threw([&]
      {
         Inflater inf(raw);
         inf.SetInput(in.data(), in.size());
         inf.Inflate(out, n);
         r.total = inf.GetTotalOut();
         r.finished = inf.Finished() && !inf.NeedsInput();
      });
      if(r.ok)r.data.assign((char*)out, n);
      delete[] out;
      return r;
   }
   // --- zlib
   B deflateZ(const B& s, bool raw, int level, int strategy, int bits = 15, int flush = Z_NO_FLUSH, int every = 0, int mem = 8)
   {
      z_stream z;
      memset(&z, 0, sizeof z);
      deflateInit2(&z, level, Z_DEFLATED, raw ? -bits : bits, mem, strategy);
      B out(deflateBound(&z, s.size()) + 64 + (every ? s.size() / every * 16 : 0), 0);
      z.next_out = (Bytef*)&out[0];
      z.avail_out = out.size();
      size_t pos = 0;
      do
      {
         size_t n = every ? std::min<size_t>(every, s.size() - pos) : s.size() - pos;
         z.next_in = (Bytef*)s.data() + pos;
         z.avail_in = n;
         pos += n;
         ::deflate(&z, pos < s.size() ? flush : Z_FINISH);
      }
      while(pos < s.size());
      out.resize(z.total_out);
      deflateEnd(&z);
      return out;
   }
   // Z_STREAM_END, Z_BUF_ERROR (truncated) or Z_DATA_ERROR
   int inflateZ(const B& s, bool raw, B& out)
   {
      z_stream z;
      memset(&z, 0, sizeof z);
      inflateInit2(&z, raw ? -15 : 15);
      z.next_in = (Bytef*)s.data();
      z.avail_in = s.size();
      out.clear();
      int r;
      char buf[4096];
      do
      {
         z.next_out = (Bytef*)buf;
         z.avail_out = sizeof buf;
         r = ::inflate(&z, Z_NO_FLUSH);
         out.append(buf, sizeof buf - z.avail_out);
      }
      while(r == Z_OK);
      inflateEnd(&z);
      return r;
   }
   void good(mc::Ctx& c, const B& stream, const B& want, bool raw, const char* how)
   {
      c.trans();
      Result r = inflateLib(stream, raw);
      EXPECT(c, r.ok, "%s: a stream of %zu bytes for %zu bytes is refused: %s", how, stream.size(), want.size(), PB(stream.substr(0, 300)).c_str());
      if(r.data != want)
      {
         size_t i = 0;
         while(i < want.size() && i < r.data.size() && want[i] == r.data[i])i++;
         c.fail("%s: %zu bytes instead of %zu, first difference at %zu; stream %s", how, r.data.size(), want.size(), i, PB(stream.substr(0, 300)).c_str());
      }
      EXPECT(c, r.total == (int64)want.size() && r.finished, "%s: total %lld for %zu bytes, finished %d", how, (long long)r.total, want.size(), r.finished);
   }
   // a stream made by hand must also be one for zlib
   void valid(mc::Ctx& c, const B& stream, const B& want, const char* how)
   {
      B z;
      int r = inflateZ(stream, true, z);
      EXPECT(c, r == Z_STREAM_END && z == want, "harness: zlib does not accept the stream (%s): %s", how, PB(stream.substr(0, 200)).c_str());
      good(c, stream, want, true, how);
   }
   // --- a DEFLATE writer
   const int LBASE[] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
   const int LEXTRA[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
   const int DBASE[] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
   const int DEXTRA[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
   struct Writer
   {
      B out, text;                    // stream and what it stands for
      int n = 0;
      std::vector<int> lit, dist;     // code lengths of the current block
      std::vector<int> lcode, dcode;
      void bit(int b)
      {
         if(n % 8 == 0)out += '\0';
         out.back() |= (char)(b << (n % 8));
         n++;
      }
      void bits(int v, int k)
      {
         for(int i = 0; i < k; i++)bit(v >> i & 1);
      }
      void code(int v, int k)
      {
         while(k--)bit(v >> k & 1);
      }
      static std::vector<int> codes(const std::vector<int>& len)
      {
         std::vector<int> r(len.size());
         int v = 0;
         for(int l = 1; l <= 15; l++, v <<= 1)for(size_t i = 0; i < len.size(); i++)if(len[i] == l)r[i] = v++;
         return r;
      }
      void header(bool last, int type)
      {
         bit(last);
         bits(type, 2);
      }
      void stored(bool last, const B& s)
      {
         header(last, 0);
         while(n % 8)bit(0);
         bits(s.size(), 16);
         bits(~s.size() & 0xFFFF, 16);
         for(unsigned char x : s)bits(x, 8);
         text += s;
      }
      void fixed(bool last)
      {
         header(last, 1);
         lit.assign(288, 8);
         for(int i = 144; i < 256; i++)lit[i] = 9;
         for(int i = 256; i < 280; i++)lit[i] = 7;
         dist.assign(32, 5);
         lcode = codes(lit), dcode = codes(dist);
      }
      // policy: how runs are written: 0 not at all, 1 greedily but not from one table into the other, 2 greedily, 3 in short pieces
      void dynamic(bool last, std::vector<int> l, std::vector<int> d, int policy, bool fullHeader = false)
      {
         header(last, 2);
         lit = l, dist = d;
         lcode = codes(lit), dcode = codes(dist);
         std::vector<int> all = l;
         all.insert(all.end(), d.begin(), d.end());
         std::vector<std::array<int, 3>> out; // symbol, extra, bits
         for(size_t i = 0; i < all.size();)
         {
            size_t end = policy == 1 && i < l.size() ? l.size() : all.size(), k = i;
            while(k < end && all[k] == all[i])k++;
            int run = k - i;
            if(policy == 3)run = std::min(run, all[i] ? 4 : 7 + (int)(i % 8));
            if(policy && all[i] == 0 && run >= 11)
            {
               run = std::min(run, 138);
               out.push_back({18, run - 11, 7});
               i += run;
            }
            else if(policy && all[i] == 0 && run >= 3)
            {
               run = std::min(run, 10);
               out.push_back({17, run - 3, 3});
               i += run;
            }
            else if(policy && all[i] && i && all[i] == all[i - 1] && run >= 3 && !(policy == 1 && i == l.size()))
            {
               run = std::min(run, 6);
               out.push_back({16, run - 3, 2});
               i += run;
            }
            else out.push_back({all[i++], 0, 0});
         }
         // code for the code lengths: complete, over the symbols used
         std::vector<int> cl(19, 0);
         std::vector<int> used;
         for(auto& o : out)if(std::find(used.begin(), used.end(), o[0]) == used.end())used.push_back(o[0]);
         if(used.size() == 1)used.push_back(used[0] ? 0 : 1);
         size_t m = 1;
         int k = 0;
         while(m < used.size())m *= 2, k++;
         for(size_t i = 0; i < used.size(); i++)cl[used[i]] = i < m - used.size() ? k - 1 : k; // the first ones one bit shorter
         std::vector<int> cc = codes(cl);
         static const int ORDER[] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
         int h = 19;
         while(!fullHeader && h > 4 && !cl[ORDER[h - 1]])h--;
         bits(l.size() - 257, 5);
         bits(d.size() - 1, 5);
         bits(h - 4, 4);
         for(int i = 0; i < h; i++)bits(cl[ORDER[i]], 3);
         for(auto& o : out)
         {
            code(cc[o[0]], cl[o[0]]);
            bits(o[1], o[2]);
         }
      }
      void symbol(int s)
      {
         code(lcode[s], lit[s]);
      }
      void literal(unsigned char x)
      {
         symbol(x);
         text += (char)x;
      }
      void end()
      {
         symbol(256);
      }
      static int lengthSymbol(int len)
      {
         int i = 28;
         while(LBASE[i] > len)i--;
         return i;
      }
      static int distSymbol(int d)
      {
         int i = 29;
         while(DBASE[i] > d)i--;
         return i;
      }
      void match(int len, int d)
      {
         int i = lengthSymbol(len), k = distSymbol(d);
         symbol(257 + i);
         bits(len - LBASE[i], LEXTRA[i]);
         code(dcode[k], dist[k]);
         bits(d - DBASE[k], DEXTRA[k]);
         for(int a = 0; a < len; a++)text += text[text.size() - d];
      }
   };
   B noise(size_t n, uint32_t seed = 1)
   {
      B r(n, 0);
      for(size_t i = 0; i < n; i++)
      {
         seed = seed * 1664525 + 1013904223;
         r[i] = (char)(seed >> 24);
      }
      return r;
   }
   // all 286 / 30 symbols: flat or with lengths 1..15 (skewed towards short ones in front)
   void tables(int shape, std::vector<int>& l, std::vector<int>& d)
   {
      l.assign(286, 9), d.assign(30, 5);
      if(shape == 0)
      {
         for(int i = 0; i < 226; i++)l[i] = 8;     // 226/256 + 60/512 = 1
         d[0] = d[1] = 4;                          // 2/16 + 28/32 = 1
      }
      else
      {
         // 1 symbol each of length 1..6, the others at the end of the code
         for(int i = 0; i < 6; i++)l[i * 40] = i + 1; // 63/64 taken, 1/64 left for 280 symbols: 14 bits have 256 places, so 232 of 14 and 48 of 15
         int k = 0;
         for(int i = 0; i < 286; i++)if(i % 40 || i / 40 > 5)l[i] = k++ < 232 ? 14 : 15;
         for(int i = 0; i < 30; i++)d[i] = 15;
         for(int i = 0; i < 10; i++)d[i * 3] = i + 1; // 1/1024 left for 20: 15 bits have 32 places: 12 of 14 (24) and 8 of 15
         k = 0;
         for(int i = 0; i < 30; i++)if(i % 3)d[i] = k++ < 12 ? 14 : 15;
      }
   }
   // all complete sets of n code lengths (in every order)
   void shapes(int n, int room, std::vector<int>& cur, std::vector<std::vector<int>>& out, int maxLen = 4)
   {
      if((int)cur.size() == n)
      {
         if(room == 0)out.push_back(cur);
         return;
      }
      for(int l = 1; l <= maxLen; l++)
      {
         int w = 1 << (maxLen - l);
         if(w > room)continue;
         cur.push_back(l);
         shapes(n, room - w, cur, out, maxLen);
         cur.pop_back();
      }
   }
   std::vector<B>& samples()
   {
      static std::vector<B> s;
      if(!s.empty())return s;
      for(B t : {B(""), B("a"), B("abcabcabcabc"), B("The quick brown fox jumps over the lazy dog. The quick brown cat."), B(300, 'x'), noise(20), B("aaaaaaaaaabbbbbbbbbbaaaaaaaaaa\n\n\n\nabab")})
      {
         s.push_back(deflateZ(t, true, 9, Z_DEFAULT_STRATEGY));
         s.push_back(deflateZ(t, true, 9, Z_FIXED));
         s.push_back(deflateZ(t, true, 0, Z_DEFAULT_STRATEGY));
      }
      // dynamic blocks are rare in such short texts: one with few symbols
      Writer w;
      std::vector<int> l(286, 0), d{1, 1};
      l['a'] = 1, l['b'] = 2, l[256] = 3, l[257] = 3;
      w.dynamic(true, l, d, 2);
      w.literal('a');
      w.literal('b');
      w.match(3, 2);
      w.match(3, 1);
      w.end();
      s.push_back(w.out);
      return s;
   }
   void anything(mc::Ctx& c, const B& s, bool raw)
   {
      c.trans();
      B z;
      int rc = inflateZ(s, raw, z);
      Result r = inflateLib(s, raw);
      if(rc == Z_STREAM_END)EXPECT(c, r.ok && r.data == z, "valid stream %s: %s", PB(s).c_str(), r.ok ? "other output than zlib" : "refused");
      else if(rc == Z_BUF_ERROR && raw)EXPECT(c, !r.ok, "the stream %s is truncated, but is inflated to %zu bytes", PB(s).c_str(), r.data.size());
      c.state((rc + 10) * 2 + r.ok);
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("every short text in every mode of zlib", {6, "every text up to length 5 / 7 over 3 letters, levels 0 1 6 9, 5 strategies, zlib and raw, flushed after every or every second byte or not"}, [](Ctx & c)
   {
      int n = c.choose(tier(6, 8));
      B t;
      for(int i = 0; i < n; i++)t += "ab\xFF"[c.choose(3)];
      for(int level :
            {
               0, 1, 6, 9
            })for(int st = 0; st < 5; st++)for(int raw = 0; raw < 2; raw++)
            {
               good(c, deflateZ(t, raw, level, st), t, raw, "whole");
               if(level == 6)for(int f :
                        {
                           Z_PARTIAL_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH
                        })for(int e = 1; e < 3; e++)good(c, deflateZ(t, raw, level, st, 15, f, e), t, raw, "flushed");
            }
      c.state(t);
   });
   scenario("structured texts in every mode of zlib", {3, "4 kinds of content, lengths 0..300, and around 1 KiB, 5 KiB, 32 KiB, 64 KiB, 100 KB; windows of 512 bytes to 32 KiB"}, [](Ctx & c)
   {
      static const int L[] = {1022, 1023, 1024, 1025, 5119, 5120, 5121, 32767, 32768, 32769, 33026, 65535, 65536, 65537, 100000};
      int kind = c.choose(4), k = c.choose(301 + 15);
      int n = k <= 300 ? k : L[k - 301];
      B t, r = noise(n);
      for(int i = 0; i < n; i++)t += kind == 0 ? 'a' : kind == 1 ? r[i] : kind == 2 ? (i < 600 ? r[i] : t[i - 599]) : "aab"[(unsigned char)r[i] % 3];
      int from = c.choose(2);
      for(int st = 0; st < 5; st++)
      {
         if(n > 6000 && (st + from) % 2)continue;
         good(c, deflateZ(t, from, 9, st), t, from, "level 9");
         good(c, deflateZ(t, from, 1, st, 9), t, from, "small window");
         good(c, deflateZ(t, from, 6, st, 15, Z_FULL_FLUSH, n / 3 + 1, 1), t, from, "flushed");
      }
      good(c, deflateZ(t, from, 0, 0), t, from, "stored");
      c.state(kind * 1000 + k);
   });
   scenario("every distance and length", {3, "fixed codes, flat and skewed dynamic codes: all 32768 distances, all 256 lengths at 12 distances, each followed by further output"}, [](Ctx & c)
   {
      int shape = c.choose(3), group = c.choose(129);
      Writer w;
      bool lengths = group == 128;
      w.stored(false, noise(33000, group + 7));
      std::vector<int> l, d;
      if(shape == 2)w.fixed(true);
      else
      {
         tables(shape, l, d);
         w.dynamic(true, l, d, shape + 1);
      }
      if(lengths)
      {
         for(int dist :
               {
                  1, 2, 3, 4, 5, 257, 258, 259, 1000, 16384, 24577, 32768
               })for(int len = 3; len <= 258; len++)
            {
               w.match(len, dist);
               if(len % 64 == 0)w.literal(len);
            }
      }
      else for(int k = 0; k < 256; k++)
         {
            w.match(3 + k % 5 * 3, 1 + group * 256 + k);
            if(k % 50 == 0)w.literal(k);
         }
      for(int i = 0; i < 256; i++)w.literal(i);
      w.end();
      valid(c, w.out, w.text, "distances and lengths");
      c.state(shape * 1000 + group);
   });
   scenario("every shape of code", {3, "all complete literal codes for 2-5 symbols, distance codes for 0-3 symbols, 4 ways to write the tables, minimal and maximal table sizes"}, [](Ctx & c)
   {
      static std::vector<std::vector<int>> lits, dists;
      if(lits.empty())
      {
         std::vector<int> cur;
         for(int n = 2; n <= 5; n++)shapes(n, 16, cur, lits);
         dists.push_back({0});
         dists.push_back({1});
         dists.push_back({0, 0, 0, 1});
         for(int n = 2; n <= 3; n++)shapes(n, 16, cur, dists);
         dists.push_back({0, 0, 0, 1, 0, 0, 0, 1});
      }
      auto& ls = lits[c.choose(lits.size())];
      auto& ds = dists[c.choose(dists.size())];
      int full = c.choose(2);
      for(int policy = 0; policy < 4; policy++)
      {
         if(ls.size() == 2 && ds.size() > 1)return; // no room for a length symbol
         std::vector<int> l(full ? 286 : 257 + 2, 0), d = ds;
         if(full)d.resize(30, 0);
         l[256] = ls[0];
         static const int S[] = {'a', 257, 'b', 258};
         for(size_t i = 1; i < ls.size(); i++)l[S[i - 1]] = ls[i];
         Writer w;
         w.stored(false, noise(40));
         w.dynamic(false, l, d, policy, full);
         w.literal('a');
         int a = 0;
         for(int k : d)if(k)a++;
         bool matches = ls.size() > 2 && a;
         if(matches)
         {
            for(int i = 0; i < (int)d.size(); i++)if(d[i])
               {
                  w.match(3, DBASE[i] + (DEXTRA[i] ? 1 : 0));
                  if(ls.size() > 4)w.match(4, DBASE[i]);
               }
         }
         if(ls.size() > 3)w.literal('b');
         w.end();
         w.fixed(true);
         w.literal('!');
         w.end();
         valid(c, w.out, w.text, fmt("table policy %d", policy).c_str());
      }
      c.state(fmt("%zu %zu", ls.size(), ds.size()));
   });
   scenario("every table run", {4, "a run of unused symbols of every length 0..142 and of equal lengths 1..14, everywhere incl. from the literal into the distance table"}, [](Ctx & c)
   {
      int zeros = c.choose(143), policy = c.choose(4), place = c.choose(3);
      std::vector<int> l(257, 0), d;
      l[256] = 1;
      if(place == 0)l[255] = 2, l[255 - zeros - 1] = 2;            // between literals
      else if(place == 1)
      {
         l[0] = 1;                                              // at the end of the literal table
         l.resize(257 + std::min(zeros, 29), 0);
      }
      else
      {
         l['a'] = 2, l[257 - 2] = 2;                              // through both tables
         l.resize(257 + std::min(zeros / 5, 29), 0);
      }
      d.assign(place == 2 ? std::min(zeros, 28) : 0, 0);
      d.push_back(1);
      d.push_back(1);
      Writer w;
      w.dynamic(true, l, d, policy);
      for(int i = 0; i < 256; i++)if(l[i])w.literal(i);
      w.end();
      valid(c, w.out, w.text, "table run");
      // equal lengths: 16 symbols of 4 bits, the last of them in the distance table
      std::vector<int> e(257, 0);
      int k = 1 + zeros % 15;
      for(int i = 0; i < 15; i++)e[i < k ? 257 - 1 - i : i] = 4;
      e.push_back(4);
      Writer v;
      v.dynamic(true, e, std::vector<int>(16, 4), policy);
      for(int i = 0; i < 256; i++)if(e[i])v.literal(i);
      v.match(3, 1 + place);
      v.end();
      valid(c, v.out, v.text, "equal lengths");
      c.state(zeros * 12 + policy * 3 + place);
   });
   scenario("every sequence of blocks", {4, "up to 4 / 5 blocks of 9 kinds (stored empty, short, 65535 bytes; fixed and dynamic with and without matches into earlier blocks; empty ones)"}, [](Ctx & c)
   {
      int n = 1 + c.choose(tier(4, 5));
      Writer w;
      std::vector<int> l, d;
      tables(0, l, d);
      for(int i = 0; i < n; i++)
      {
         bool last = i == n - 1;
         int k = c.choose(9);
         if(k == 0)w.stored(last, "");
         else if(k == 1)w.stored(last, B("hello") + (char)i);
         else if(k == 2)w.stored(last, i == 0 ? noise(65535) : noise(700, i));
         else
         {
            if(k % 2)w.fixed(last);
            else w.dynamic(last, l, d, 2);
            if(k > 4)w.literal('a' + i);
            if(k > 6)
            {
               w.match(5, 1);
               w.match(4, std::min<size_t>(w.text.size(), 32768));
               w.literal('.');
            }
            w.end();
         }
      }
      B want = w.text, s = w.out;
      valid(c, s, want, "blocks");
      good(c, s + "rest", want, true, "blocks with further data behind");
      c.state(want);
   });
   scenario("use of the object", {3, "default and explicit construction, Reset() before and between, two streams in one object, memory released"}, [](Ctx & c)
   {
      int def = c.choose(2), reset = c.choose(2), between = c.choose(2), len = c.choose(5);
      const int N[] = {0, 5, 1023, 1024, 5000};
      B t1 = noise(N[len]), t2 = B("second text, second text");
      B s1 = deflateZ(t1, false, 9, 0, 15, Z_FULL_FLUSH, t1.size() / 3 + 1), s2 = deflateZ(t2, false, 9, 0);
      auto use = [&]
      {
         Inflater* inf = def ? new Inflater() : new Inflater(false);
         if(reset)inf->Reset();
         uint8* out = nullptr;
         int64 n = 0;
         inf->SetInput((uint8*)s1.data(), s1.size());
         EXPECT(c, !inf->Finished(), "finished before the start");
         inf->Inflate(out, n);
         EXPECT(c, B((char*)out, n) == t1, "first stream");
         EXPECT(c, inf->Finished(), "not finished");
         if(between)
         {
            inf->Reset();
            EXPECT(c, !inf->Finished() && inf->GetTotalOut() == 0 && inf->GetTotalIn() == 0, "after Reset()");
            uint8* out2 = nullptr;
            inf->SetInput((uint8*)s2.data(), s2.size());
            inf->Inflate(out2, n);
            EXPECT(c, B((char*)out2, n) == t2, "second stream");
            EXPECT(c, B((char*)out, t1.size()) == t1, "the first buffer belongs to the caller");
            delete[] out2;
         }
         inf->release();
         delete[] out;
      };
      use();
      leakFree(c, use);
      leakFree(c, [&] {Inflater* i = new Inflater(def); if(reset)i->Reset(); i->release();});
      c.state(def + reset * 2 + between * 4 + len * 8);
   });
   scenario("every truncation and corruption", {3, "22 streams: every prefix, every single bit flipped, every byte replaced by every value, every byte removed: same output as zlib where it is valid, an exception where it is incomplete"}, [](Ctx & c)
   {
      auto& all = samples();
      B s = all[c.choose(all.size())];
      int at = c.choose(400);
      if(at >= (int)s.size())c.discard();
      anything(c, s.substr(0, at), true);
      if(at > 120 && at < 290 && !thorough())return; // the stored 300 bytes
      B t = s;
      for(int v = 0; v < 256; v++)
      {
         if(v == (unsigned char)s[at])continue;
         t[at] = (char)v;
         anything(c, t, true);
      }
      anything(c, s.substr(0, at) + s.substr(at + 1), true);
   });
   scenario("every short stream", {3, "raw: all streams of 0-2 bytes, of 3 bytes with 16 / 256 values of the first and 7 / 256 of the last, zlib header: all first two bytes"}, [](Ctx & c)
   {
      int x = c.choose(256), kind = c.choose(4), part = c.choose(kind == 3 ? 16 : 1);
      if(kind == 0)
      {
         anything(c, B(1, (char)x), true);
         if(x == 0)anything(c, "", true), anything(c, "", false);
         anything(c, B(1, (char)x), false);
         return;
      }
      for(int y = kind == 3 ? part * 16 : 0; y < (kind == 3 ? part * 16 + 16 : 256); y++)
      {
         if(kind == 1)anything(c, B{(char)x, (char)y}, true);
         else if(kind == 2)anything(c, B{(char)x, (char)y, 0x4B, 0x04, 0}, false);
         else if(x < 16 || thorough())for(int z = 0; z < 256; z += tier(37, 1))anything(c, B{(char)x, (char)y, (char)z}, true);
      }
   });
   scenario("dynamic headers", {6, "a dynamic block with every HLIT, HDIST, and every 19th (thorough: every) code length code over {0,1,2,7} at 5 places, followed by three kinds of bits"}, [](Ctx & c)
   {
      int hlit = c.choose(32), hdist = c.choose(32), fill = c.choose(3);
      if(!thorough() && !(hlit < 2 || hlit > 27 || hdist < 2 || hdist > 28))return;
      for(int m = 0; m < 1024; m++)
      {
         Writer w;
         w.header(true, 2);
         w.bits(hlit, 5);
         w.bits(hdist, 5);
         w.bits(15, 4);
         const int V[] = {0, 1, 2, 7};
         int cl[19] = {};
         cl[0] = V[m & 3], cl[2] = V[m >> 2 & 3], cl[3] = V[m >> 4 & 3], cl[4] = V[m >> 6 & 3], cl[17] = V[m >> 8 & 3];
         for(int i = 0; i < 19; i++)w.bits(cl[i], 3);
         B s = w.out + (fill == 0 ? B(160, 0) : fill == 1 ? B(160, '\xFF') : noise(160, m * 32 + hlit));
         if(!thorough() && m % 19)continue;
         anything(c, s, true);
      }
   });
   scenario("Deflater", {3, "5 kinds of content, lengths 0..700 and around 32 KiB, 64 KiB, 200 KB; two runs with one object; read back by zlib and by Inflater; memory released"}, [](Ctx & c)
   {
      static const int L[] = {1024, 4096, 16383, 32767, 32768, 32769, 65535, 65536, 70000, 200000};
      int kind = c.choose(5), k = c.choose(701 + 10);
      int n = k <= 700 ? k : L[k - 701];
      B t, r = noise(n);
      for(int i = 0; i < n; i++)t += kind == 0 ? 'a' : kind == 1 ? r[i] : kind == 2 ? (i < 600 ? r[i] : t[i - 599]) : kind == 3 ? "aab"[(unsigned char)r[i] % 3] : (char)i;
      std::vector<uint8> in(t.begin(), t.end());
      in.shrink_to_fit();
      Deflater d;
      d.reset();
      int64 sum = 0;
      for(int i = 0; i < 2; i++)
      {
         c.trans();
         d.setInput(in.data(), in.size());
         uint8* out = nullptr;
         int64 len = 0;
         d.deflate(out, len);
         B s((char*)out, len), z;
         delete[] out;
         sum += len;
         EXPECT(c, inflateZ(s, false, z) == Z_STREAM_END && z == t, "zlib does not read back %d bytes of kind %d from %lld bytes", n, kind, (long long)len);
         EXPECT(c, d.totalInSize() == (i + 1) * n && d.totalOutSize() == sum, "totals %lld and %lld", (long long)d.totalInSize(), (long long)d.totalOutSize());
         good(c, s, t, false, "Deflater's output");
      }
      EXPECT(c, t.size() == in.size() && !memcmp(t.data(), in.data(), n), "input changed");
      c.state(kind * 1000 + k);
   });
   scenario("Deflater: memory", {1, "lengths 0, 1, 1000, 100000, one to three runs, reset in between or not: everything is released"}, [](Ctx & c)
   {
      static const int L[] = {0, 1, 1000, 100000};
      int n = L[c.choose(4)], runs = 1 + c.choose(3);
      bool reset = c.choose(2);
      std::vector<uint8> in((size_t)n, 7);
      leakFree(c, [&]
      {
         Deflater* d = new Deflater();
         for(int i = 0; i < runs; i++)
         {
            if(reset)
            {
               d->reset();
               EXPECT(c, d->totalInSize() == 0 && d->totalOutSize() == 0, "totals after reset()");
            }
            d->setInput(in.data(), n);
            uint8* out = nullptr;
            int64 len = 0;
            d->deflate(out, len);
            c.trans();
            delete[] out;
            EXPECT(c, d->totalInSize() == (reset ? 1 : i + 1) * (int64)n, "total %lld", (long long)d->totalInSize());
         }
         d->release();
      });
   });
   scenario("Deflater: every short text", {5, "every text up to length 6 / 8 over 3 letters"}, [](Ctx & c)
   {
      int n = c.choose(tier(7, 9));
      B t;
      for(int i = 0; i < n; i++)t += "ab\xFF"[c.choose(3)];
      std::vector<uint8> in(t.begin(), t.end());
      in.shrink_to_fit();
      Deflater d;
      d.reset();
      d.setInput(in.data(), n);
      uint8* out = nullptr;
      int64 len = 0;
      d.deflate(out, len);
      B s((char*)out, len), z;
      delete[] out;
      EXPECT(c, inflateZ(s, false, z) == Z_STREAM_END && z == t, "\"%s\"", PB(t).c_str());
      good(c, s, t, false, "Deflater's output");
      c.state(t);
   });
   scenario("memory while decompressing", {1, "0, 100, 1023, 1024, 5000, 100000 equal bytes, then 0 to 3 MB (thorough 16 MB) of noise, in 1 or 2 streams; the memory in use stays below 8 times input and output"}, [](Ctx & c)
   {
      static const int A[] = {0, 100, 1023, 1024, 5000, 100000};
      static const int N[] = {0, 1000, 30000, 300000, 1000000, 3000000, 16000000};
      int a = A[c.choose(6)], n = N[c.choose(tier(6, 7))], rounds = 1 + c.choose(2);
      B t = B((size_t)a, 'x') + noise(n);
      B s = deflateZ(t, false, 9, 0);
      Inflater inf;
      for(int r = 0; r < rounds; r++)
      {
         if(r)inf.Reset();
         uint8* out = nullptr;
         int64 len = 0;
         mc::leakStart();
         inf.SetInput((uint8*)s.data(), s.size());
         inf.Inflate(out, len);
         mc::leakStop();
         c.trans();
         EXPECT(c, (size_t)len == t.size() && !memcmp(out, t.data(), len), "content");
         EXPECT(c, mc::leakPeak() <= 8 * (s.size() + t.size()) + 65536, "%zu bytes in use to decompress %zu into %zu bytes", mc::leakPeak(), s.size(), t.size());
         delete[] out;
      }
      c.state(mc::fmt("%d/%d", a, n));
   });
}
