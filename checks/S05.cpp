// StringTokenizer and String::split.
#include "lib.hpp"
using namespace jm;
const char* const kProperty = "S05";

namespace
{
   std::vector<std::u16string> tokens(const std::u16string& s, const std::u16string& d, bool ret)
   {
      std::vector<std::u16string> r;
      std::u16string cur;
      for(char16_t c : s)
      {
         if(d.find(c) == std::u16string::npos)
         {
            cur += c;
            continue;
         }
         if(!cur.empty())r.push_back(cur);
         cur.clear();
         if(ret)r.push_back(std::u16string(1, c));
      }
      if(!cur.empty())r.push_back(cur);
      return r;
   }
   const char16_t A[] = {',', ';', 'a', 'b', 0x202C};
   std::u16string text(mc::Ctx& c, int maxLen, int letters)
   {
      int n = c.choose(maxLen + 1);
      std::u16string s;
      for(int i = 0; i < n; i++)s += A[c.choose(letters)];
      return s;
   }
   std::u16string delims(int m)
   {
      std::u16string d;
      for(int i = 0; i < 5; i++)if(m & (1 << i))d += A[i];
      return d;
   }
   // asks: how often hasNext() is called before each next()
   void run(mc::Ctx& c, const std::u16string& s, const std::u16string& d, bool ret, int asks)
   {
      auto want = tokens(s, d, ret);
      StringTokenizer t(J(s), J(d), ret);
      for(size_t i = 0; i < want.size(); i++)
      {
         c.trans();
         for(int k = 0; k < asks; k++)EXPECT(c, t.hasNext(), "\"%s\" by \"%s\" (%d): no token %zu", P(s).c_str(), P(d).c_str(), ret, i);
         std::u16string got = U(t.next());
         EXPECT(c, got == want[i], "\"%s\" by \"%s\" (%d): token %zu is \"%s\"", P(s).c_str(), P(d).c_str(), ret, i, P(got).c_str());
      }
      for(int k = 0; k < asks; k++)EXPECT(c, !t.hasNext(), "\"%s\" by \"%s\" (%d): more than %zu tokens", P(s).c_str(), P(d).c_str(), ret, want.size());
   }
}

void defineScenarios()
{
   using namespace mc;
   useLibrary();
   scenario("every text and every set of delimiters", {6, "texts up to length 6 / 7 over {,;ab} and U+202C, whose low byte is the comma, every subset as delimiters, delimiters returned or not, hasNext() asked 0, 1 or 2 times"}, [](Ctx & c)
   {
      std::u16string s = text(c, tier(6, 7), 5);
      for(int m = 0; m < 32; m++)for(int ret = 0; ret < 2; ret++)
         {
            // asking does not matter: twice and never on every input, once on some
            run(c, s, delims(m), ret, 2);
            run(c, s, delims(m), ret, (m + ret) % 2);
         }
      c.state(P(s));
   });
   scenario("long tokens", {6, "1-4 tokens of lengths 0..40 around the string's internal capacity"}, [](Ctx & c)
   {
      int n = 1 + c.choose(tier(3, 4));
      std::u16string s;
      const int len[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40};
      for(int i = 0; i < n; i++)
      {
         if(i)s += c.choose(2) ? u',' : u';';
         int l = len[c.choose(13)];
         for(int k = 0; k < l; k++)s += (char16_t)('a' + (i * 7 + k) % 26);
      }
      for(int m = 1; m < 4; m++)for(int ret = 0; ret < 2; ret++)run(c, s, delims(m), ret, 1);
      c.state(hash(s.data(), s.size() * 2));
   });
   scenario("next() without a further token", {6, "every text up to length 4: an exception, again and again, and the tokenizer stays usable"}, [](Ctx & c)
   {
      std::u16string s = text(c, 4, 3);
      int ret = c.choose(2), ask = c.choose(2);
      auto want = tokens(s, u",;", ret);
      StringTokenizer t(J(s), ",;", ret);
      for(size_t i = 0; i < want.size(); i++)
      {
         if(ask)t.hasNext();
         EXPECT(c, U(t.next()) == want[i], "token %zu", i);
      }
      for(int k = 0; k < 2; k++)
      {
         if(ask)EXPECT(c, !t.hasNext(), "hasNext() at the end");
         EXPECT(c, threw([&] { t.next(); }), "next() at the end of \"%s\" returns something", P(s).c_str());
      }
      c.state(P(s));
   });
   scenario("String::split", {6, "every text up to length 7 / 9 over {,;a}, every separator; the string unchanged"}, [](Ctx & c)
   {
      std::u16string s = text(c, tier(7, 9), 3);
      String j = J(s);
      for(int d = 0; d < 4; d++)
      {
         c.trans();
         auto want = tokens(s, std::u16string(1, A[d]), false);
         StringList l = j.split(Char((uint16)A[d]));
         EXPECT(c, l.size() == (int64)want.size(), "\"%s\".split('%s'): %lld parts", P(s).c_str(), P(std::u16string(1, A[d])).c_str(), (long long)l.size());
         for(size_t i = 0; i < want.size(); i++)EXPECT(c, U(l.get(i)) == want[i], "\"%s\".split: part %zu is \"%s\"", P(s).c_str(), i, P(l.get(i)).c_str());
      }
      EXPECT(c, U(j) == s, "split() changed the string");
      c.state(P(s));
   });
   scenario("many tokens", {1, "58 numbers of tokens up to 4097, 4 lengths of tokens, 1..3 separators in between: tokenizer and split"}, [](Ctx & c)
   {
      int n = farLengths()[c.choose((int)farLengths().size())], l = c.choose(4), seps = 1 + c.choose(3);
      if(n > 300 && (l > 1 || n > 5000 || seps > 1))return;
      std::u16string s;
      for(int i = 0; i < n; i++)
      {
         int k = l == 0 ? 1 : l == 1 ? i % 5 : l == 2 ? 20 : i;
         if(i)for(int j = 0; j < seps; j++)s += j == 1 ? u';' : u',';
         for(int j = 0; j < k; j++)s += (char16_t)('a' + (i + j) % 26);
      }
      for(int ret = 0; ret < 2; ret++)
      {
         run(c, s, u",;", ret, ret);
         run(c, s, u",", ret, 1);
         run(c, s, u"", ret, 1);
         run(c, s, u"abcdefghijklmnopqrstuvwxyz,;.:-_#+*!?0123456789\u20ac", ret, 1);
      }
      auto want = tokens(s, u",", false);
      StringList parts = J(s).split(Char(','));
      EXPECT(c, parts.size() == (int64)want.size(), "split() into %lld parts instead of %zu", (long long)parts.size(), want.size());
      for(size_t i = 0; i < want.size(); i++)EXPECT(c, U(parts.get(i)) == want[i], "split(): part %zu is \"%s\"", i, P(parts.get(i)).c_str());
      c.state(n * 16 + l * 4 + seps);
   });
}
