// Serializing numbers.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "E03";

namespace
{
   enum Kind { kBE16, kBE24, kBE32, kBE64, kLE16, kLEU16, kLE24, kLE32, kLE64, kLEDouble, kLEFloat, kKinds };
   const char* NAME[] = {"BEInt16", "BEInt24", "BEInt32", "BEInt64", "LEInt16", "LEUInt16", "LEInt24", "LEInt32", "LEInt64", "LEDouble", "LEFloat"};
   const int SIZE[] = {2, 3, 4, 8, 2, 2, 3, 4, 8, 8, 4};
   int write(int k, uint8* b, uint32 at, uint64_t v)
   {
      double d;
      float f;
      uint32_t v32 = (uint32_t)v;
      memcpy(&d, &v, 8);
      memcpy(&f, &v32, 4);
      switch(k)
      {
         case kBE16: return serializeBEInt16(b, at, (int16)v);
         case kBE24: return serializeBEInt24(b, at, (int32)v);
         case kBE32: return serializeBEInt32(b, at, (int32)v);
         case kBE64: return serializeBEInt64(b, at, (int64)v);
         case kLE16: return serializeLEInt16(b, at, (int16)v);
         case kLEU16: return serializeLEUInt16(b, at, (uint16)v);
         case kLE24: return serializeLEInt24(b, at, (int32)v);
         case kLE32: return serializeLEInt32(b, at, (int32)v);
         case kLE64: return serializeLEInt64(b, at, (int64)v);
         case kLEDouble: return serializeLEDouble(b, at, d);
         default: return serializeLEFloat(b, at, f);
      }
   }
   bool big(int k)
   {
      return k <= kBE64;
   }
   template<class T, class W> void same(mc::Ctx& c, T got, W want, const char* what, uint64_t v)
   {
      EXPECT(c, sizeof got == sizeof want && !memcmp(&got, &want, sizeof got), "%s of %llx", what, (unsigned long long)v);
   }
   // reads back what stands for v at the offset
   void read(mc::Ctx& c, int k, std::vector<uint8>& buf, uint32 at, uint64_t v)
   {
      uint8* b = buf.data();
      ByteArray a(b, (int64)buf.size());
      uint16_t u16 = v;
      int16_t i16 = v;
      uint32_t u32 = v;
      int32_t i32 = v;
      double d;
      float f;
      memcpy(&d, &v, 8);
      memcpy(&f, &u32, 4);
      switch(k)
      {
         case kBE16:
            same(c, deserializeBEUInt16(b, at), u16, "deserializeBEUInt16", v);
            same(c, deserializeBEInt16(b, at), i16, "deserializeBEInt16", v);
            same(c, deserializeBEInt16(a, at), i16, "deserializeBEInt16(ByteArray)", v);
            break;
         case kBE32:
            same(c, deserializeBEUInt32(b, at), u32, "deserializeBEUInt32", v);
            same(c, deserializeBEUInt32(a, at), u32, "deserializeBEUInt32(ByteArray)", v);
            same(c, deserializeBEInt32(a, at), i32, "deserializeBEInt32(ByteArray)", v);
            break;
         case kBE64:
            same(c, deserializeBEInt64(b, at), (int64)v, "deserializeBEInt64", v);
            same(c, deserializeBEInt64(a, at), (int64)v, "deserializeBEInt64(ByteArray)", v);
            break;
         case kLE16:
         case kLEU16:
            same(c, deserializeLEUInt16(b, at), u16, "deserializeLEUInt16", v);
            same(c, deserializeLEUInt16(a, at), u16, "deserializeLEUInt16(ByteArray)", v);
            same(c, deserializeLEInt16(b, at), i16, "deserializeLEInt16", v);
            same(c, deserializeLEInt16(a, at), i16, "deserializeLEInt16(ByteArray)", v);
            break;
         case kLE32:
            same(c, deserializeLEUInt32(b, at), u32, "deserializeLEUInt32", v);
            same(c, deserializeLEUInt32(a, at), u32, "deserializeLEUInt32(ByteArray)", v);
            same(c, deserializeLEInt32(b, at), i32, "deserializeLEInt32", v);
            same(c, deserializeLEInt32(a, at), i32, "deserializeLEInt32(ByteArray)", v);
            break;
         case kLE64:
            same(c, deserializeLEInt64(b, at), (int64)v, "deserializeLEInt64", v);
            same(c, deserializeLEInt64(a, at), (int64)v, "deserializeLEInt64(ByteArray)", v);
            break;
         case kLEDouble:
            same(c, deserializeLEDouble(b, at), d, "deserializeLEDouble", v);
            same(c, deserializeLEDouble(a, at), d, "deserializeLEDouble(ByteArray)", v);
            break;
         case kLEFloat:
            same(c, deserializeLEFloat(b, at), f, "deserializeLEFloat", v);
            break;
         default:
            break;
      }
   }
   void put(std::vector<uint8>& buf, int k, uint32 at, uint64_t v)
   {
      for(int i = 0; i < SIZE[k]; i++)buf[at + i] = (uint8)(v >> 8 * (big(k) ? SIZE[k] - 1 - i : i));
   }
   // only the bytes of the number are written, the buffer ends behind it
   void one(mc::Ctx& c, int k, uint32 at, uint64_t v)
   {
      c.trans();
      std::vector<uint8> buf(at + SIZE[k], 0x5A), want = buf;
      buf.shrink_to_fit();
      put(want, k, at, v);
      int n = write(k, buf.data(), at, v);
      EXPECT(c, buf == want && n == SIZE[k], "serialize%s of %llx at %u: %s, returned %d", NAME[k], (unsigned long long)v, at, PB(buf.data(), buf.size()).c_str(), n);
      read(c, k, buf, at, v);
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("every pair of bytes at every place", {3, "all kinds; every two of the bytes take all 256 x 256 values (thorough; quick: 256 x 12), the others 00, 7F, 80, FF; offsets 0..3"}, [](Ctx & c)
   {
      int k = c.choose(kKinds), x = c.choose(256), others = c.choose(4);
      static const int Y[] = {0, 1, 2, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFE, 0xFF};
      static const int O[] = {0, 0x7F, 0x80, 0xFF};
      for(int i = 0; i < SIZE[k]; i++)for(int j = 0; j < SIZE[k]; j++)
         {
            if(i == j)continue;
            for(int n = 0; n < tier(12, 256); n++)
            {
               uint64_t v = 0;
               for(int b = 0; b < SIZE[k]; b++)v |= (uint64_t)(b == i ? x : b == j ? (thorough() ? n : Y[n]) : O[others]) << 8 * b;
               one(c, k, n % 4, v);
            }
         }
      c.state(k * 1024 + x * 4 + others);
   });
   scenario("all 16-bit and (thorough) all 24-bit values", {2, "16-bit kinds at offsets 0 and 1"}, [](Ctx & c)
   {
      int k = c.choose(5), x = c.choose(256);
      static const int K[] = {kBE16, kLE16, kLEU16, kBE24, kLE24};
      for(int y = 0; y < 256; y++)
      {
         one(c, K[k], y % 2, x * 256 + y);
         if(SIZE[K[k]] == 3)for(int z = 0; z < 256; z += tier(51, 1))one(c, K[k], 0, (x << 16) + (y << 8) + z);
      }
      c.state(k * 256 + x);
   });
   scenario("every sequence of kinds", {4, "up to 4 / 5 numbers of every kind one behind the other, read back in order"}, [](Ctx & c)
   {
      int n = 1 + c.choose(tier(4, 5));
      std::vector<int> ks;
      size_t total = 0;
      for(int i = 0; i < n; i++)
      {
         ks.push_back(c.choose(kKinds));
         total += SIZE[ks.back()];
      }
      std::vector<uint8> buf(total, 0xEE), want = buf;
      buf.shrink_to_fit();
      auto value = [](int i)
      {
         return 0x8081C2FE12F3A5B7ULL * (2 * i + 1);
      };
      uint32 at = 0;
      for(int i = 0; i < n; i++)
      {
         c.trans();
         put(want, ks[i], at, value(i));
         at += write(ks[i], buf.data(), at, value(i));
      }
      EXPECT(c, buf == want && at == total, "%s", PB(buf.data(), total).c_str());
      at = 0;
      for(int i = 0; i < n; i++)
      {
         read(c, ks[i], buf, at, value(i));
         at += SIZE[ks[i]];
      }
      EXPECT(c, buf == want, "reading changed the buffer");
      c.state(PB(want.data(), total));
   });
   scenario("far offsets", {1, "all kinds, 6 values; offsets 4..40, 254..258, 65534..65537, 131071, 16777215..16777217"}, [](Ctx & c)
   {
      std::vector<uint32> at;
      for(uint32 i = 4; i <= 40; i++)at.push_back(i);
      for(uint32 i : {254, 255, 256, 257, 258, 65534, 65535, 65536, 65537, 131071, 16777215, 16777216, 16777217})at.push_back(i);
      int k = c.choose(kKinds);
      uint32 off = at[c.choose((int)at.size())];
      for(uint64_t v : {0ULL, 1ULL, 0x0123456789ABCDEFULL, 0xFEDCBA9876543210ULL, 0x8000000000800080ULL, ~0ULL})
      {
         if(off > 1000000 && v != 0x0123456789ABCDEFULL && v != 0xFEDCBA9876543210ULL)continue;
         one(c, k, off, v);
      }
      c.state(k * 64 + off % 64);
   });
}
