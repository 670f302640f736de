// Helpers shared by the checks.  The library itself comes in through the precompiled header.
#pragma once
#include "PrecompiledCore.hpp"
#include "mc.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

// --- conversions that do not rely on the library's charsets
inline std::u16string U(const jm::String& s)
{
   std::u16string r;
   for(int64 i = 0; i < s.size(); i++)r += (char16_t)s.charAt(i).unicode();
   return r;
}
inline std::u16string U(const char* s)
{
   std::u16string r;
   while(*s)r += (char16_t)(unsigned char) * s++;
   return r;
}
inline jm::String J(const std::u16string& s)
{
   jm::String r;
   for(char16_t c : s)r.append(jm::Char((uint16)c));
   return r;
}
inline std::string P(const std::u16string& s) // printable
{
   std::string r;
   for(char16_t c : s)
   {
      if(c >= 32 && c < 127 && c != '\\')r += (char)c;
      else r += mc::fmt("\\u%04x", (unsigned)c);
   }
   return r;
}
inline std::string P(const jm::String& s)
{
   return P(U(s));
}
inline std::string PB(const void* p, size_t n)
{
   std::string r;
   for(size_t i = 0; i < n; i++)r += mc::fmt("%02x", ((const unsigned char*)p)[i]);
   return r;
}
inline std::string PB(const std::string& s)
{
   return PB(s.data(), s.size());
}
inline mc::Ctx*& theCtx()
{
   static mc::Ctx* c = nullptr;
   return c;
}
#define EXPECT(c, cond, ...) do { if(!(cond))(c).fail(__VA_ARGS__); } while(0)

// runs f; true if it threw a library exception (by value or, as some places do, by pointer)
template<class F> bool threw(F f)
{
   try
   {
      f();
      return false;
   }
   catch(jm::Exception&)
   {
      return true;
   }
   catch(jm::Exception* e)
   {
      delete e;
      return true;
   }
   catch(std::exception&)
   {
      return true;
   }
}
// runs f, which must give back all memory it allocates; f must own everything it creates
template<class F> void leakFree(mc::Ctx& c, F f)
{
   mc::leakStart();
   f();
   mc::leakStop();
   EXPECT(c, mc::leakBlocks() == 0, "%zu blocks (%zu bytes) allocated during the run were never released",
          mc::leakBlocks(), mc::leakBytes());
}
// the library's own initialisation (translations, charsets), without preference files
inline void useLibrary()
{
   mc::onWorkerStart([] {jm::System::init("");});
}

// --- long inputs: lengths around the usual thresholds, and orders of n values
inline const std::vector<int>& lengths(bool big = true)
{
   static std::vector<int> a, b;
   if(a.empty())
   {
      for(int i = 0; i <= 40; i++)a.push_back(i);
      for(int i : {63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257})a.push_back(i);
      b = a;
      for(int i : {300, 511, 512, 513, 999, 1000, 1023, 1024, 1025})b.push_back(i);
   }
   return big ? b : a;
}
// up to 257 and around the larger thresholds, also of 16-bit counters
inline const std::vector<int>& farLengths()
{
   static std::vector<int> a;
   if(a.empty())
   {
      a = lengths(false);
      for(int i : {1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000})a.push_back(i);
   }
   return a;
}
const int kOrders = 14;
inline int order(int kind, int i, int n)
{
   switch(kind)
   {
      case 0: return i;
      case 1: return n - i;
      case 2: return 3;
      case 3: return i % 2;
      case 4: return i % 7;
      case 5: return i < n / 2 ? i : n - i;
      case 6: return i == n - 1 ? -1 : i;
      case 7: return i == 0 ? n + 1 : i;
      case 8: return i * 7 % n;
      case 9: return (int)(i * 611953LL % n);
      case 10: return i < n / 2 ? i + n : i;
      case 11: return (n - i) / 3;
      case 12: return i % 2 ? i : n - i;
      default: return (int)((i * 2654435761ULL >> 7) % 1009);
   }
}
