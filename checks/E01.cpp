// Base64, URL encoding, CRC.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "E01";

namespace
{
   typedef std::string B;
   const char* ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
   B encode(const B& s)
   {
      B r;
      for(size_t i = 0; i < s.size(); i += 3)
      {
         size_t n = std::min<size_t>(3, s.size() - i);
         uint32_t v = 0;
         for(size_t k = 0; k < 3; k++)v = v * 256 + (k < n ? (unsigned char)s[i + k] : 0);
         for(size_t k = 0; k < 4; k++)r += k <= n ? ALPHA[(v >> (18 - 6 * k)) & 63] : '=';
      }
      return r;
   }
   // as far as the text is Base64
   B decode(const B& s)
   {
      B r;
      for(size_t i = 0; i < s.size(); i += 4)
      {
         uint32_t v = 0;
         size_t n = 0;
         for(; n < 4 && i + n < s.size() && s[i + n] && strchr(ALPHA, s[i + n]); n++)v = v * 64 + (strchr(ALPHA, s[i + n]) - ALPHA);
         v <<= 6 * (4 - n);
         for(size_t k = 1; k < n; k++)r += (char)(v >> (24 - 8 * k));
         if(n < 4)break;
      }
      return r;
   }
   B libEncode(const B& s)
   {
      int64 n = s.size();
      std::vector<uint8> in(s.begin(), s.end());
      in.shrink_to_fit();
      uint8* e = Base64::encode(in.data(), n);
      B r((char*)e, n);
      delete[] e;
      return r;
   }
   B libDecode(const B& s)
   {
      uint32 n = s.size();
      std::vector<uint8> in(s.begin(), s.end());
      in.shrink_to_fit();
      uint8* e = Base64::decode(in.data(), n);
      B r((char*)e, n);
      delete[] e;
      return r;
   }
   void both(mc::Ctx& c, const B& s)
   {
      c.trans(2);
      B want = encode(s), got = libEncode(s);
      EXPECT(c, got == want, "%s is encoded %s, not %s", PB(s).c_str(), got.c_str(), want.c_str());
      got = libDecode(want);
      EXPECT(c, got == s, "%s is decoded as %s, not %s", want.c_str(), PB(got).c_str(), PB(s).c_str());
      size_t cut = want.find('=');
      if(cut != B::npos)
      {
         got = libDecode(want.substr(0, cut));
         EXPECT(c, got == s, "%s is decoded as %s, not %s", want.substr(0, cut).c_str(), PB(got).c_str(), PB(s).c_str());
      }
   }
   uint16 crc(uint16 v, const unsigned char* p, size_t n)
   {
      for(size_t i = 0; i < n; i++)
      {
         v ^= p[i];
         for(int k = 0; k < 8; k++)v = v & 1 ? (v >> 1) ^ 0xA001 : v >> 1;
      }
      return v;
   }
   B utf8(const std::u16string& s)
   {
      B r;
      for(size_t i = 0; i < s.size(); i++)
      {
         uint32_t c = s[i];
         if(c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000)
         {
            c = 0x10000 + (c - 0xD800) * 1024 + (s[++i] - 0xDC00);
            r += {(char)(0xF0 | c >> 18), (char)(0x80 | (c >> 12 & 63)), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63))};
         }
         else if(c < 0x80)r += (char)c;
         else if(c < 0x800)r += {(char)(0xC0 | c >> 6), (char)(0x80 | (c & 63))};
         else r += {(char)(0xE0 | c >> 12), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63))};
      }
      return r;
   }
   int hex(char c)
   {
      return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
   }
   void url(mc::Ctx& c, const std::u16string& s)
   {
      c.trans(2);
      String j = J(s), e = URLEncode(j);
      EXPECT(c, U(j) == s, "URLEncode() changed \"%s\"", P(s).c_str());
      B enc, bytes = utf8(s);
      for(char16_t x : U(e))
      {
         EXPECT(c, x > 0 && x < 128 && x != ' ', "\"%s\" is encoded \"%s\"", P(s).c_str(), P(e).c_str());
         enc += (char)x;
      }
      // undone by any other decoder
      B dec;
      for(size_t i = 0; i < enc.size(); i++)
      {
         if(enc[i] == '+')dec += ' ';
         else if(enc[i] != '%')dec += enc[i];
         else
         {
            EXPECT(c, i + 2 < enc.size() && hex(enc[i + 1]) >= 0 && hex(enc[i + 2]) >= 0, "\"%s\" is encoded \"%s\"", P(s).c_str(), enc.c_str());
            dec += (char)(hex(enc[i + 1]) * 16 + hex(enc[i + 2]));
            i += 2;
         }
      }
      EXPECT(c, dec == bytes, "\"%s\" is encoded \"%s\"", P(s).c_str(), enc.c_str());
      std::u16string back = U(URLDecode(e));
      EXPECT(c, back == s, "\"%s\" comes back from \"%s\" as \"%s\"", P(s).c_str(), enc.c_str(), P(back).c_str());
      // everything escaped, in both cases of the digits
      for(const char* f : {"%%%02x", "%%%02X"})
      {
         B all;
         for(unsigned char x : bytes)all += mc::fmt(f, x);
         back = U(URLDecode(J(U(all.c_str()))));
         EXPECT(c, back == s, "\"%s\" is decoded as \"%s\"", all.c_str(), P(back).c_str());
      }
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("base64: every block", {2, "all byte strings of length 0, 1, 2; of length 3 all combinations of the 6-bit groups' boundaries"}, [](Ctx & c)
   {
      int x = c.choose(256), n = c.choose(4);
      if(n == 0)both(c, "");
      else if(n == 1)both(c, B(1, (char)x));
      else for(int y = 0; y < 256; y++)
         {
            if(n == 2)both(c, B{(char)x, (char)y});
            else for(int z : {0, 1, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xFE, 0xFF})if(thorough() || x % 5 == 0)both(c, B{(char)x, (char)y, (char)z});
         }
      c.state(x);
   });
   scenario("base64: every length", {1, "lengths 0..400 of 4 patterns"}, [](Ctx & c)
   {
      int n = c.choose(401), p = c.choose(4);
      B s;
      for(int i = 0; i < n; i++)s += (char)(p == 0 ? 0 : p == 1 ? 255 : p == 2 ? i : i * 77 + 13);
      both(c, s);
      c.state(n);
   });
   scenario("base64: any text", {4, "every text up to length 6 / 8 over 8 letters incl. padding, line feed and invalid ones: decoded up to the first other letter, nothing read beyond the end"}, [](Ctx & c)
   {
      int n = c.choose(tier(7, 9));
      B s;
      for(int i = 0; i < n; i++)s += "A/z=\n\x80Q-"[c.choose(8)];
      c.trans();
      B want = decode(s), got = libDecode(s);
      EXPECT(c, got == want, "\"%s\" is decoded as %s, not %s", PB(s).c_str(), PB(got).c_str(), PB(want).c_str());
      c.state(PB(want));
   });
   scenario("base64: every letter", {1, "all 256 bytes at each of the 4 places of the last and the last but one group"}, [](Ctx & c)
   {
      int x = c.choose(256), at = c.choose(8);
      B s = "QUJDREVG";
      s[at] = (char)x;
      B want = decode(s), got = libDecode(s);
      EXPECT(c, got == want, "\"%s\" is decoded as %s, not %s", PB(s).c_str(), PB(got).c_str(), PB(want).c_str());
      c.state(x * 8 + at);
   });
   scenario("URL: every character", {6, "all 16-bit characters alone and between others"}, [](Ctx & c)
   {
      int page = c.choose(256);
      for(int k = 0; k < 256; k++)
      {
         if(page * 256 + k == 0 || page * 256 + k == 0xFEFF)continue; // the end of a text, the byte order mark
         url(c, std::u16string(1, (char16_t)(page * 256 + k)));
         url(c, std::u16string(u"a%") + (char16_t)(page * 256 + k) + std::u16string(u"4 b"));
      }
      c.state(page);
   });
   scenario("URL: every text", {4, "every text up to length 5 / 7 over {%+ aB4 euro sign, surrogates}"}, [](Ctx & c)
   {
      const char16_t A[] = {'%', '+', ' ', 'B', '4', 0x20AC, 0xD83D, 0xDE00};
      int n = c.choose(tier(6, 8));
      std::u16string s;
      for(int i = 0; i < n; i++)s += A[c.choose(8)];
      url(c, s);
      c.state(P(s));
   });
   scenario("URL: decoding any ASCII text", {4, "every text up to length 6 / 8 over {%+2Bbgz}: percent signs without two hexadecimal digits stand for themselves"}, [](Ctx & c)
   {
      int n = c.choose(tier(7, 9));
      B s, want;
      for(int i = 0; i < n; i++)s += "%+2Bbgz"[c.choose(7)];
      for(int i = 0; i < n; i++)
      {
         if(s[i] == '+')want += ' ';
         else if(s[i] == '%' && i + 2 < n && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0)
         {
            want += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2]));
            i += 2;
         }
         else want += s[i];
      }
      c.trans();
      std::u16string w, got = U(URLDecode(J(U(s.c_str()))));
      for(unsigned char x : want)w += x; // single bytes stand for themselves
      EXPECT(c, got == w, "\"%s\" is decoded as \"%s\", not \"%s\"", s.c_str(), P(got).c_str(), P(w).c_str());
      c.state(want);
   });
   scenario("CRC: every step", {2, "every register value with every byte"}, [](Ctx & c)
   {
      int v0 = c.choose(256);
      for(int v1 = 0; v1 < 256; v1++)for(int b = 0; b < 256; b++)
         {
            unsigned char x = b;
            uint16 want = crc(v0 * 256 + v1, &x, 1), got = CRC::crc8(v0 * 256 + v1, &x, 1);
            EXPECT(c, got == want, "register %02x%02x, byte %02x: %04x, not %04x", v0, v1, b, got, want);
         }
      c.trans(65536);
      c.state(v0);
   });
   scenario("CRC: every split", {2, "lengths 0..64 of 3 patterns, 4 start values, every split in two"}, [](Ctx & c)
   {
      int n = c.choose(65), p = c.choose(3);
      std::vector<uint8> s;
      for(int i = 0; i < n; i++)s.push_back(p == 0 ? 0 : p == 1 ? i : i * 91 + 7);
      s.shrink_to_fit();
      for(uint16 v : {0, 0xFFFF, 0x1234, 0xC0C1})
      {
         uint16 want = crc(v, s.data(), n);
         for(int k = 0; k <= n; k++)
         {
            c.trans();
            EXPECT(c, CRC::crc8(CRC::crc8(v, s.data(), k), s.data() + k, n - k) == want, "%d bytes, split at %d", n, k);
         }
      }
      c.state(n);
   });
   scenario("long contents", {1, "63 lengths up to 1025 and 3000, 4095..4097, 65535..65537 of 3 patterns: Base64, CRC in one and in two pieces; URL encoding of texts up to 1025 characters"}, [](Ctx & c)
   {
      std::vector<int> len = lengths();
      for(int n : {3000, 4095, 4096, 4097, 65535, 65536, 65537})len.push_back(n);
      int n = len[c.choose((int)len.size())], p = c.choose(3);
      B s;
      for(int i = 0; i < n; i++)s += (char)(p == 0 ? i : p == 1 ? i * 77 + 13 : 0xFB + i % 5);
      both(c, s);
      const unsigned char* d = (const unsigned char*)s.data();
      for(uint16 v : {0, 0xFFFF})
      {
         uint16 want = crc(v, d, n), got = CRC::crc8(v, (uint8*)d, n);
         EXPECT(c, got == want, "CRC of %d bytes: %04x, not %04x", n, got, want);
         EXPECT(c, CRC::crc8(CRC::crc8(v, (uint8*)d, n / 3), (uint8*)d + n / 3, n - n / 3) == want, "CRC of %d bytes in two pieces", n);
      }
      c.trans(4);
      if(n <= 1025)
      {
         std::u16string t;
         for(int i = 0; i < n; i++)t += p == 0 ? (char16_t)('a' + i % 26) : p == 1 ? u"a %+\u00e4\u20ac"[i % 6] : (char16_t)(0x3b1 + i % 20);
         url(c, t);
      }
      c.state(n * 4 + p);
   });
}
