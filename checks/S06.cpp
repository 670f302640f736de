// Charsets: encode, decode, guess.
#include "lib.hpp"
#include "charset_tables.hpp"
using namespace jm;
const char* const kProperty = "S06";

namespace
{
   typedef std::u16string W;
   typedef std::string B;
   enum Kind { kUtf8, kBE, kLE, kCp, kMac, kRaw, kAscii, kKinds };
   const char* const NAME[] = {"UTF-8", "UTF-16BE", "UTF-16LE", "Windows-1252", "MacRoman", "RAW", "ASCII"};
   Charset* cs(int k)
   {
      return Charset::forName(NAME[k]);
   }
   bool hi(char16_t c)
   {
      return c >= 0xD800 && c < 0xDC00;
   }
   bool lo(char16_t c)
   {
      return c >= 0xDC00 && c < 0xE000;
   }
   // the bytes the encoding prescribes; false: not representable
   bool encode(int k, const W& s, B& r)
   {
      r.clear();
      for(size_t i = 0; i < s.size(); i++)
      {
         uint32_t c = s[i];
         switch(k)
         {
            case kUtf8:
               if(hi(c) && i + 1 < s.size() && lo(s[i + 1]))
               {
                  c = 0x10000 + (c - 0xD800) * 1024 + (s[++i] - 0xDC00);
                  r += (char)(0xF0 + c / 0x40000);
                  r += (char)(0x80 + c / 0x1000 % 64);
                  r += (char)(0x80 + c / 64 % 64);
                  r += (char)(0x80 + c % 64);
               }
               else if(c < 0x80)r += (char)c;
               else if(c < 0x800)r += (char)(0xC0 + c / 64), r += (char)(0x80 + c % 64);
               else r += (char)(0xE0 + c / 4096), r += (char)(0x80 + c / 64 % 64), r += (char)(0x80 + c % 64);
               break;
            case kBE:
               r += (char)(c / 256), r += (char)(c % 256);
               break;
            case kLE:
               r += (char)(c % 256), r += (char)(c / 256);
               break;
            case kCp:
            case kMac:
            {
               const unsigned short* t = k == kCp ? kCp1252 : kMacRoman;
               int b = 0;
               while(b < 256 && t[b] != c)b++;
               if(b == 256 || c == 0xFFFF)return false;
               r += (char)b;
               break;
            }
            default:
               if(c > (k == kRaw ? 0xFF : 0x7F))return false;
               r += (char)c;
         }
      }
      return true;
   }
   // a byte order mark at the start (of any kind) is not part of the text
   bool marked(const B& b)
   {
      return b.substr(0, 2) == "\xFE\xFF" || b.substr(0, 2) == "\xFF\xFE" || b.substr(0, 3) == "\xEF\xBB\xBF";
   }
   B bytes(const ByteArray& a)
   {
      return B(a.constData() ? a.constData() : "", a.size());
   }
   void roundTrip(mc::Ctx& c, int k, const W& s)
   {
      B want;
      if(!encode(k, s, want))return;
      c.trans();
      String j = J(s);
      ByteArray enc = j.toCString(cs(k));
      B got = bytes(enc);
      EXPECT(c, got == want, "\"%s\" in %s is %s, not %s", P(s).c_str(), NAME[k], PB(want).c_str(), PB(got).c_str());
      EXPECT(c, U(j) == s, "encoding changed the string");
      if(marked(want) || want.empty())return;
      W a = U(String(enc, cs(k)));
      EXPECT(c, a == s, "%s in %s is \"%s\", not \"%s\" (byte array)", PB(want).c_str(), NAME[k], P(s).c_str(), P(a).c_str());
      a = U(String(want.data(), (int64)want.size(), cs(k)));
      EXPECT(c, a == s, "%s in %s is \"%s\", not \"%s\" (size given)", PB(want).c_str(), NAME[k], P(s).c_str(), P(a).c_str());
      B z = want + B(2, '\0');
      std::vector<char> exact(z.begin(), z.end());
      a = U(String(exact.data(), cs(k)));
      EXPECT(c, a == s, "%s in %s is \"%s\", not \"%s\" (zero terminated)", PB(want).c_str(), NAME[k], P(s).c_str(), P(a).c_str());
      if(k == kUtf8)
      {
         exact.resize(want.size() + 1);
         exact.shrink_to_fit();
         EXPECT(c, U(String(exact.data())) == s && U(String(exact.data(), (int64)want.size())) == s && U(String(enc)) == s && bytes(j.toCString()) == want,
                "\"%s\": default encoding", P(s).c_str());
      }
   }
   // the text the library takes any bytes for
   W anyUtf8(const B& b, size_t i)
   {
      W r;
      while(i < b.size())
      {
         unsigned l = (unsigned char)b[i];
         size_t n = l < 0xC0 ? 1 : l < 0xE0 ? 2 : l < 0xF0 ? 3 : l < 0xF8 ? 4 : 1;
         uint32_t v = n == 2 ? l & 31 : n == 3 ? l & 15 : n == 4 ? l & 7 : l;
         bool ok = i + n <= b.size();
         for(size_t k = 1; ok && k < n; k++)
         {
            ok = (b[i + k] & 0xC0) == 0x80;
            v = v * 64 + (b[i + k] & 63);
         }
         if(ok && n == 4 && (v < 0x10000 || v > 0x10FFFF))ok = false;
         if(!ok)
         {
            r += (char16_t)l;
            i++;
            continue;
         }
         if(n == 4)r += (char16_t)(0xD800 + (v - 0x10000) / 1024), r += (char16_t)(0xDC00 + v % 1024);
         else r += (char16_t)v;
         i += n;
      }
      return r;
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("every character in every charset", {6, "all 65535 characters alone and between letters, 7 charsets, 3 ways to decode"}, [](Ctx & c)
   {
      int k = c.choose(kKinds), page = c.choose(256);
      int u = page * 256 + c.choose(256);
      if(!u)return;
      roundTrip(c, k, W(1, (char16_t)u));
      roundTrip(c, k, W(u"a") + (char16_t)u + W(u"z"));
      c.state(u);
   });
   scenario("every supplementary character", {4, "UTF-8 and UTF-16: all characters of plane 1 (thorough: all planes), all first and last of every plane"}, [](Ctx & c)
   {
      int plane = c.choose(16), row = c.choose(256);
      bool all = thorough() || plane == 0;
      for(int k = 0; k < 256; k++)
      {
         if(!all && k != 0 && k != 255)continue;
         uint32_t v = 0x10000 + plane * 0x10000 + row * 256 + k - 0x10000;
         W s{(char16_t)(0xD800 + v / 1024), (char16_t)(0xDC00 + v % 1024)};
         for(int q = kUtf8; q <= kLE; q++)roundTrip(c, q, s);
         roundTrip(c, kUtf8, W(u"x") + s + s + W(u"\u20ac"));
      }
      c.state(plane * 256 + row);
   });
   scenario("short texts over boundary characters", {6, "every text up to length 4 / 5 over 16 boundary characters incl. single surrogates, 7 charsets"}, [](Ctx & c)
   {
      const char16_t A[] = {'a', 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFEFF, 0xFFFE};
      int n = 1 + c.choose(tier(4, 5));
      W s;
      for(int i = 0; i < n; i++)s += A[c.choose(16)];
      for(int k = 0; k < kKinds; k++)roundTrip(c, k, s);
   });
   scenario("any bytes as UTF-8", {6, "every byte sequence up to length 4 / 6 over 17 / 13 boundary bytes incl. incomplete sequences: what is complete is decoded, other bytes stand for themselves, nothing beyond the end is read"}, [](Ctx & c)
   {
      const unsigned char A[] = {'a', 0x80, 0xBF, 0xC3, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF8, 0xFF, 0xBB, 0xFE, 0x9F, 0x8F, 0xF5, 0xDF};
      int n = c.choose(tier(4, 6)) + 1, letters = tier(17, 13);
      B b;
      for(int i = 0; i < n; i++)b += (char)A[c.choose(letters)];
      if(b.substr(0, 2) == "\xFE\xFF" || b.substr(0, 2) == "\xFF\xFE")
      {
         c.state(2);
         if(n > 3)return; // exceptions are slow
         EXPECT(c, threw([&] {String s(b.data(), (int64)b.size());}), "UTF-16 taken for UTF-8");
         return;
      }
      W want = anyUtf8(b, b.substr(0, 3) == "\xEF\xBB\xBF" ? 3 : 0);
      std::vector<char> exact(b.begin(), b.end());
      exact.push_back(0);
      exact.shrink_to_fit();
      c.trans();
      W got = U(String(exact.data()));
      EXPECT(c, got == want, "%s is \"%s\", not \"%s\"", PB(b).c_str(), P(want).c_str(), P(got).c_str());
      got = U(String(exact.data(), n));
      EXPECT(c, got == want, "%s (size given) is \"%s\", not \"%s\"", PB(b).c_str(), P(want).c_str(), P(got).c_str());
      c.state(P(want));
   });
   scenario("any bytes as UTF-16", {6, "every byte sequence up to length 5 / 7 over 6 bytes incl. zero, odd lengths: up to the first zero character, nothing beyond the end is read"}, [](Ctx & c)
   {
      const unsigned char A[] = {'a', 0, 1, 0xFE, 0xFF, 0xD8};
      int n = c.choose(tier(6, 8)), le = c.choose(2);
      B b;
      for(int i = 0; i < n; i++)b += (char)A[c.choose(6)];
      size_t i = b.substr(0, 2) == "\xFE\xFF" || b.substr(0, 2) == "\xFF\xFE" ? 2 : 0;
      W want;
      for(;; i += 2)
      {
         unsigned x = i < b.size() ? (unsigned char)b[i] : 0, y = i + 1 < b.size() ? (unsigned char)b[i + 1] : 0;
         if(!x && !y)break;
         want += (char16_t)(le ? x + y * 256 : x * 256 + y);
      }
      std::vector<char> exact(b.begin(), b.end());
      exact.shrink_to_fit();
      c.trans();
      W got = U(String(exact.data(), n, cs(le ? kLE : kBE)));
      EXPECT(c, got == want, "%s is \"%s\", not \"%s\"", PB(b).c_str(), P(want).c_str(), P(got).c_str());
      if(n == 0)return;
      got = U(String(ByteArray((const uint8*)exact.data(), n), cs(le ? kLE : kBE)));
      EXPECT(c, got == want, "%s (byte array) is \"%s\", not \"%s\"", PB(b).c_str(), P(want).c_str(), P(got).c_str());
      c.state(P(want));
   });
   scenario("any bytes in the one-byte charsets", {4, "every pair of bytes, all 256 values, 4 charsets"}, [](Ctx & c)
   {
      int k = kCp + c.choose(4), x = 1 + c.choose(255);
      for(int y = 1; y < 256; y++)
      {
         c.trans();
         B b{(char)x, (char)y};
         W got = U(String(b.data(), 2, cs(k)));
         EXPECT(c, got.size() == 2, "%s: %zu characters", PB(b).c_str(), got.size());
         for(int i = 0; i < 2; i++)
         {
            int v = (unsigned char)b[i];
            unsigned want = k == kCp ? kCp1252[v] : k == kMac ? kMacRoman[v] : v;
            if(want == 0xFFFF || (k == kAscii && v > 127))continue;
            EXPECT(c, got[i] == want, "byte %02x in %s is U+%04x", v, NAME[k], got[i]);
         }
      }
      c.state(x);
   });
   scenario("names", {1, "every charset and unknown names"}, [](Ctx & c)
   {
      int k = c.choose(kKinds + 4);
      const char* other[] = {"", "utf", "UTF-8 ", "UTF-16"};
      if(k < kKinds)
      {
         EXPECT(c, cs(k) && U(cs(k)->name()) == U(NAME[k]) && cs(k)->hasName(NAME[k]), "%s", NAME[k]);
         for(int i = 0; i < kKinds; i++)EXPECT(c, cs(k)->hasName(NAME[i]) == (i == k), "%s is %s", NAME[k], NAME[i]);
      }
      else EXPECT(c, !Charset::forName(other[k - kKinds]), "charset \"%s\"", other[k - kKinds]);
      EXPECT(c, Charset::getDefault() == cs(kUtf8), "default charset");
      c.state(k);
   });
   scenario("alternative names", {1, "a charset with 0-3 alternative names"}, [](Ctx & c)
   {
      int n = c.choose(4);
      String alt[3] = {"one", "two", "three"};
      leakFree(c, [&]
      {
         Charset* s = new Charset("main", alt, n, new UTF8Decoder());
         EXPECT(c, s->hasName("main") && !s->hasName("mainx"), "name");
         for(int i = 0; i < 3; i++)EXPECT(c, s->hasName(alt[i]) == (i < n), "alternative name %d of %d", i, n);
         s->release();
      });
      c.state(n);
   });
   scenario("guess", {6, "every byte sequence up to length 5 / 6 over 9 bytes: marks, pure ASCII, nothing beyond the end is read"}, [](Ctx & c)
   {
      const unsigned char A[] = {'a', 0xEF, 0xBB, 0xBF, 0xFE, 0xFF, 0x80, 0x7F, '\n'};
      int n = c.choose(tier(5, 6)) + 1;
      B b;
      bool ascii = true;
      for(int i = 0; i < n; i++)b += (char)A[c.choose(9)], ascii &= (unsigned char)b.back() < 128;
      std::vector<char> exact(b.begin(), b.end());
      exact.shrink_to_fit();
      c.trans();
      B got = P(Charset::guess(exact.data(), n));
      B want = b.substr(0, 2) == "\xFE\xFF" ? "UTF-16BE" : b.substr(0, 2) == "\xFF\xFE" ? "UTF-16LE" : marked(b) ? "UTF-8" : ascii ? "ASCII" : "UTF-8";
      EXPECT(c, got == want, "%s is guessed %s, not %s", PB(b).c_str(), got.c_str(), want.c_str());
      c.state(PB(b));
   });
   scenario("guess UTF-16 without mark", {2, "texts of 1..40 ASCII characters in both byte orders"}, [](Ctx & c)
   {
      int n = 1 + c.choose(40), le = c.choose(2);
      B b;
      for(int i = 0; i < n; i++)b += le ? B{(char)('a' + i % 26), '\0'} : B{'\0', (char)('a' + i % 26)};
      std::vector<char> exact(b.begin(), b.end());
      EXPECT(c, P(Charset::guess(exact.data(), n * 2)) == (le ? "UTF-16LE" : "UTF-16BE"), "%d characters", n);
      c.state(n);
   });
   scenario("long texts", {1, "63 lengths up to 1025 and 4095..4097, 65535..65537; 5 mixtures of characters; all charsets, guessed too"}, [](Ctx & c)
   {
      std::vector<int> len = lengths();
      for(int n : {4095, 4096, 4097, 65535, 65536, 65537})len.push_back(n);
      int n = len[c.choose((int)len.size())], kind = c.choose(5);
      W s;
      for(int i = 0; i < n; i++)
      {
         switch(kind)
         {
            case 0: s += (char16_t)('a' + i % 26); break;
            case 1: s += u"\u00e4\u00df\u00fc\u00d6"[i % 4]; break;
            case 2: s += (char16_t)(0x2200 + i % 0x300); break;
            case 3: s += u"\U0001F600"[i % 2]; break;
            default: s += i == n - 1 ? u'\u00fc' : (char16_t)('A' + i % 26); // only the last one is not ASCII
         }
      }
      if(kind == 3 && n % 2)s.back() = 'x';
      for(int k = 0; k < kKinds; k++)roundTrip(c, k, s);
      c.state(n * 8 + kind);
   });
   scenario("console output", {1, "texts up to length 2 over 12 characters, lengths up to 1025, written in 4 charsets chosen before, by default in Windows-1252"}, [](Ctx & c)
   {
      struct Back
      {
         ~Back() { String::setConsoleCharset(nullptr); }
      } back;
      const char* names[] = {"UTF-8", "Windows-1252", "MacRoman", "ASCII", ""};
      const W A = u"a\u00e4\u20ac\u2260\u00df!\t\u00ff%~\u0152\u2122";
      int k = c.choose(5), x = c.choose(12), y = c.choose(12), len = c.choose(3);
      std::vector<int> sizes = lengths();
      W s;
      int n = len < 2 ? len + 1 : sizes[(x * 12 + y) % sizes.size()];
      for(int i = 0; i < n; i++)s += A[i % 2 ? y : x];
      String j = J(s);
      Charset* cs = Charset::forName(*names[k] ? names[k] : "Windows-1252");
      EXPECT(c, cs != nullptr, "charset %s", names[k]);
      String::setConsoleCharset(*names[k] ? cs : nullptr);
      std::stringstream out;
      out << j << 1;
      B want = B(j.toCString(cs).constData()) + "1";
      EXPECT(c, out.str() == want, "%s as %s is written as %s instead of %s", P(j).c_str(), names[k], PB(out.str()).c_str(), PB(want).c_str());
      c.state(fmt("%d %d %d %d", k, x, y, n));
   });
}
