// Colours: every RGB triple, every pair of components that interact.
// mc: workers 8
#include "lib.hpp"
#include <cmath>
using namespace jm;
const char* const kProperty = "M05";

namespace
{
   std::string txt(const Color& k)
   {
      switch(k.mode())
      {
         case ColorMode::kGrey: return mc::fmt("grey(%d)/%d", k.grey(), k.alpha());
         case ColorMode::kRgb: return mc::fmt("rgb(%d,%d,%d)/%d", k.red(), k.green(), k.blue(), k.alpha());
         default: return mc::fmt("cmyk(%d,%d,%d,%d)/%d", k.cyan(), k.magenta(), k.yellow(), k.key(), k.alpha());
      }
   }
   bool isRgb(const Color& k, int r, int g, int b, int a)
   {
      return k.mode() == ColorMode::kRgb && k.red() == r && k.green() == g && k.blue() == b && k.alpha() == a;
   }
   bool isCmyk(const Color& k, int cy, int m, int y, int key, int a)
   {
      return k.mode() == ColorMode::kCmyk && k.cyan() == cy && k.magenta() == m && k.yellow() == y && k.key() == key && k.alpha() == a;
   }
   bool isGrey(const Color& k, int g, int a)
   {
      return k.mode() == ColorMode::kGrey && k.grey() == g && k.alpha() == a;
   }
   // v is the nearest (or, in between two, either) byte
   bool nearest(int v, double exact)
   {
      return std::abs(v - exact) <= 0.5 + 1e-3;
   }

   // ---- conversions of one RGB colour
   void rgb(mc::Ctx& c, int r, int g, int b, int alpha)
   {
      c.trans();
      Color k = Color::fromRgb((uint8)r, (uint8)g, (uint8)b, (uint8)alpha);
      EXPECT(c, isRgb(k, r, g, b, alpha), "fromRgb(%d,%d,%d,%d) is %s", r, g, b, alpha, txt(k).c_str());
      Color w = k;
      EXPECT(c, isRgb(w.toRgb(), r, g, b, alpha) && isRgb(w, r, g, b, alpha), "%s to RGB is %s", txt(k).c_str(), txt(w).c_str());
      EXPECT(c, k.isWhite() == (r == 255 && g == 255 && b == 255), "%s is white: %d", txt(k).c_str(), (int)k.isWhite());

      w = k;
      w.toGreyScale();
      EXPECT(c, w.mode() == ColorMode::kGrey && w.alpha() == alpha && nearest(w.grey(), 0.2126 * r + 0.7152 * g + 0.0722 * b),
             "%s to grey is %s", txt(k).c_str(), txt(w).c_str());

      w = k;
      w.toCmyk();
      int mx = std::max(r, std::max(g, b)), mn = std::min(r, std::min(g, b));
      bool ok = w.mode() == ColorMode::kCmyk && w.alpha() == alpha && w.key() == 255 - mx;
      if(mx)ok = ok && nearest(w.cyan(), 255.0 * (mx - r) / mx) && nearest(w.magenta(), 255.0 * (mx - g) / mx) && nearest(w.yellow(), 255.0 * (mx - b) / mx);
      else ok = ok && !w.cyan() && !w.magenta() && !w.yellow();
      EXPECT(c, ok, "%s to CMYK is %s", txt(k).c_str(), txt(w).c_str());
      EXPECT(c, w.isWhite() == k.isWhite(), "%s and %s: white", txt(k).c_str(), txt(w).c_str());
      if(mx == mn)
      {
         std::string t = txt(w);
         w.toRgb();
         EXPECT(c, isRgb(w, r, g, b, alpha), "%s to CMYK is %s and back is %s", txt(k).c_str(), t.c_str(), txt(w).c_str());
      }

      float h = -1, s = -1, v = -1;
      k.hsvModel(h, s, v);
      double H = 0;
      if(mx != mn)
      {
         if(mx == r)H = 60.0 * (g - b) / (mx - mn);
         else if(mx == g)H = 120 + 60.0 * (b - r) / (mx - mn);
         else H = 240 + 60.0 * (r - g) / (mx - mn);
         if(H < 0)H += 360;
      }
      double S = mx ? (mx - mn) / (double)mx : 0, V = mx / 255.0;
      EXPECT(c, std::abs(h - H) <= 1e-3 && std::abs(s - S) <= 1e-5 && std::abs(v - V) <= 1e-5, "%s in the HSV model is %g %g %g instead of %g %g %g", txt(k).c_str(), h, s, v, H, S, V);
      EXPECT(c, isRgb(k, r, g, b, alpha), "hsvModel changes the colour to %s", txt(k).c_str());
      w = Color::FromHsv(h, s, v, alpha / 255.0f);
      EXPECT(c, isRgb(w, r, g, b, alpha), "%s is HSV %g %g %g, which gives back %s", txt(k).c_str(), h, s, v, txt(w).c_str());
   }

   // ---- grey and CMYK
   void grey(mc::Ctx& c)
   {
      int g = c.choose(256);
      for(int a = 0; a < 256; a++)
      {
         c.trans();
         Color k = Color::fromGrey((uint8)g, (uint8)a);
         EXPECT(c, isGrey(k, g, a), "fromGrey(%d,%d) is %s", g, a, txt(k).c_str());
         EXPECT(c, k.isWhite() == (g == 255), "%s is white: %d", txt(k).c_str(), (int)k.isWhite());
         Color w = k;
         w.toGreyScale();
         EXPECT(c, isGrey(w, g, a), "%s to grey is %s", txt(k).c_str(), txt(w).c_str());
         w.toRgb();
         EXPECT(c, isRgb(w, g, g, g, a), "%s to RGB is %s", txt(k).c_str(), txt(w).c_str());
         w.toGreyScale();
         EXPECT(c, isGrey(w, g, a), "%s to RGB and back is %s", txt(k).c_str(), txt(w).c_str());
         w.toCmyk();
         EXPECT(c, isCmyk(w, 0, 0, 0, 255 - g, a), "%s to CMYK is %s", txt(k).c_str(), txt(w).c_str());
         w.toGreyScale();
         EXPECT(c, isGrey(w, g, a), "%s to CMYK and back is %s", txt(k).c_str(), txt(w).c_str());
         float h, s, v;
         k.hsvModel(h, s, v);
         EXPECT(c, h == 0 && s == 0 && std::abs(v - g / 255.0) < 1e-5 && isGrey(k, g, a), "%s in the HSV model is %g %g %g, the colour %s", txt(k).c_str(), h, s, v, txt(k).c_str());
      }
   }
   void cmyk(mc::Ctx& c)
   {
      static const int G[] = {0, 1, 2, 63, 64, 127, 128, 129, 200, 254, 255};
      int key = c.choose(256), other = G[c.choose(11)], third = G[c.choose(mc::tier(3, 11)) * (mc::thorough() ? 1 : 5)], place = c.choose(3), alpha = G[(key + other) % 11];
      for(int x = 0; x < 256; x++)
      {
         int v[3];
         v[place] = x, v[(place + 1) % 3] = other, v[(place + 2) % 3] = third;
         c.trans();
         Color k = Color::fromCmyk((uint8)v[0], (uint8)v[1], (uint8)v[2], (uint8)key, (uint8)alpha);
         EXPECT(c, isCmyk(k, v[0], v[1], v[2], key, alpha), "fromCmyk(%d,%d,%d,%d,%d) is %s", v[0], v[1], v[2], key, alpha, txt(k).c_str());
         int e[3];
         for(int i = 0; i < 3; i++)e[i] = 255 - std::min(255, v[i] + key);
         Color w = k;
         w.toCmyk();
         EXPECT(c, isCmyk(w, v[0], v[1], v[2], key, alpha), "%s to CMYK is %s", txt(k).c_str(), txt(w).c_str());
         w.toRgb();
         EXPECT(c, isRgb(w, e[0], e[1], e[2], alpha), "%s to RGB is %s", txt(k).c_str(), txt(w).c_str());
         EXPECT(c, k.isWhite() == w.isWhite() && k.isWhite() == (!v[0] && !v[1] && !v[2] && !key), "%s is white: %d", txt(k).c_str(), (int)k.isWhite());
         float h, s, val, h2, s2, v2;
         k.hsvModel(h, s, val), w.hsvModel(h2, s2, v2);
         EXPECT(c, h == h2 && s == s2 && val == v2 && isCmyk(k, v[0], v[1], v[2], key, alpha), "the HSV model of %s", txt(k).c_str());
         Color y = k;
         y.toGreyScale();
         EXPECT(c, y.mode() == ColorMode::kGrey && y.alpha() == alpha && nearest(y.grey(), 0.2126 * e[0] + 0.7152 * e[1] + 0.0722 * e[2]),
                "%s to grey is %s", txt(k).c_str(), txt(y).c_str());
      }
   }

   // ---- HSV angles
   void hsv(mc::Ctx& c)
   {
      int hue = c.choose(mc::tier(361, 3601));
      float h = mc::thorough() ? hue / 10.0f : (float)hue;
      for(int s = 0; s <= 20; s++)for(int v = 0; v <= 20; v++)
         {
            c.trans();
            int alpha = (s * 21 + v) % 256;
            Color k = Color::FromHsv(h, s / 20.0f, v / 20.0f, alpha / 255.0f);
            double S = s / 20.0, V = v / 20.0, H = std::fmod((double)h, 360.0) / 60;
            auto f = [&](double n) // the closed form
            {
               double q = std::fmod(n + H, 6);
               return V - V * S * std::max(0.0, std::min(std::min(q, 4 - q), 1.0));
            };
            EXPECT(c, k.mode() == ColorMode::kRgb && k.alpha() == alpha && nearest(k.red(), 255 * f(5)) && nearest(k.green(), 255 * f(3)) && nearest(k.blue(), 255 * f(1)),
                   "HSV %g %g %g is %s instead of %g %g %g", h, S, V, txt(k).c_str(), 255 * f(5), 255 * f(3), 255 * f(1));
            if(s == 0 && v == 0)EXPECT(c, Color::FromHsv(h, 1, 1).alpha() == 255, "the default alpha");
         }
   }

   // ---- blending
   bool between(double v, double a, double b, double tol)
   {
      return v >= std::min(a, b) - tol && v <= std::max(a, b) + tol;
   }
   void blendOpaque(mc::Ctx& c)
   {
      int alpha = c.choose(256), step = 1;
      for(int b = 0; b < 256; b += step)for(int f = 0; f < 256; f += step)
         {
            c.trans();
            int bg[3] = {b, 255 - b, (b * 7 + 31) % 256}, fg[3] = {f, (f * 3 + 100) % 256, 255 - f};
            Color B = Color::fromRgb((uint8)bg[0], (uint8)bg[1], (uint8)bg[2]), F = Color::fromRgb((uint8)fg[0], (uint8)fg[1], (uint8)fg[2]);
            Color k = blend(B, F, (uint8)alpha);
            int got[3] = {k.red(), k.green(), k.blue()};
            bool ok = k.mode() == ColorMode::kRgb && k.alpha() == 255;
            for(int i = 0; i < 3; i++)ok = ok && between(got[i], bg[i], fg[i], 0) && std::abs(got[i] - (alpha * fg[i] + (255 - alpha) * bg[i]) / 255.0) < 1;
            EXPECT(c, ok, "%s under %s with %d is %s", txt(B).c_str(), txt(F).c_str(), alpha, txt(k).c_str());
            // at both ends: exactly that colour, otherwise the same step function
            float p = alpha / 255.0f;
            Color A = Color::fromRgb((uint8)bg[0], (uint8)bg[1], (uint8)bg[2], (uint8)(255 - f)), E = Color::fromRgb((uint8)fg[0], (uint8)fg[1], (uint8)fg[2], (uint8)b);
            k = interpolate(A, E, p);
            int to[4] = {k.red(), k.green(), k.blue(), k.alpha()}, a4[4] = {bg[0], bg[1], bg[2], 255 - f}, e4[4] = {fg[0], fg[1], fg[2], b};
            ok = k.mode() == ColorMode::kRgb;
            for(int i = 0; i < 4; i++)ok = ok && between(to[i], a4[i], e4[i], 0) && std::abs(to[i] - (a4[i] + (e4[i] - a4[i]) * (double)p)) < 1 + 1e-3;
            EXPECT(c, ok, "%s to %s at %g is %s", txt(A).c_str(), txt(E).c_str(), p, txt(k).c_str());
            if(alpha == 0)EXPECT(c, k == A, "%s to %s at the begin is %s", txt(A).c_str(), txt(E).c_str(), txt(k).c_str());
            if(alpha == 255)EXPECT(c, k == E, "%s to %s at the end is %s", txt(A).c_str(), txt(E).c_str(), txt(k).c_str());
         }
   }
   void blendTransparent(mc::Ctx& c)
   {
      auto value = [](int i) // 0..20: both ends densely
      {
         return i < 5 ? i : i > 15 ? 235 + i : (i - 5) * 23 + 14;
      };
      int ab = c.choose(256), af = c.choose(256), n = mc::tier(21, 86);
      auto pick = [&](int i)
      {
         return mc::thorough() ? i * 3 : value(i);
      };
      if(ab == 255 && af == 255)return;
      for(int i = 0; i < n; i++)for(int j = 0; j < n; j++)
         {
            int b = pick(i), f = pick(j);
            c.trans();
            int bg[3] = {b, 255 - b, 255}, fg[3] = {f, f, 255 - f};
            Color B = Color::fromRgb((uint8)bg[0], (uint8)bg[1], (uint8)bg[2], (uint8)ab), F = Color::fromRgb((uint8)fg[0], (uint8)fg[1], (uint8)fg[2], (uint8)af);
            Color k = blend(B, F, 255);
            int got[3] = {k.red(), k.green(), k.blue()};
            double A = af / 255.0, Z = ab / 255.0, C = A + (1 - A) * Z;
            bool ok = k.mode() == ColorMode::kRgb && std::abs(k.alpha() - 255 * C) < 1;
            if(C > 0)for(int x = 0; x < 3; x++)
               {
                  double e = (A * fg[x] + (1 - A) * Z * bg[x]) / C;
                  ok = ok && between(got[x], bg[x], fg[x], 0) && std::abs(got[x] - e) < 1;
               }
            EXPECT(c, ok, "%s under %s is %s", txt(B).c_str(), txt(F).c_str(), txt(k).c_str());
            if(af == 255)EXPECT(c, k == F, "%s under the opaque %s is %s", txt(B).c_str(), txt(F).c_str(), txt(k).c_str());
            if(af == 0 && ab)EXPECT(c, k == B, "%s under nothing is %s", txt(B).c_str(), txt(k).c_str());
         }
   }

   // ---- all sequences of component access, copies, comparison, sum and difference
   void accessAll(mc::Ctx& c)
   {
      struct K
      {
         int mode = 1, v[4] = {0, 0, 0, 0}, alpha = 255;
      };
      auto make = [&](K & k)
      {
         k.mode = c.choose(3);
         int s = c.choose(4);
         static const int V[4][5] = {{0, 0, 0, 0, 0}, {255, 255, 255, 255, 255}, {1, 2, 3, 4, 5}, {250, 131, 17, 64, 77}};
         int n = k.mode == 0 ? 1 : k.mode == 1 ? 3 : 4;
         for(int i = 0; i < n; i++)k.v[i] = V[s][i];
         k.alpha = V[s][4];
         if(k.mode == 0)return Color::fromGrey((uint8)k.v[0], (uint8)k.alpha);
         if(k.mode == 1)return Color::fromRgb((uint8)k.v[0], (uint8)k.v[1], (uint8)k.v[2], (uint8)k.alpha);
         return Color::fromCmyk((uint8)k.v[0], (uint8)k.v[1], (uint8)k.v[2], (uint8)k.v[3], (uint8)k.alpha);
      };
      auto same = [](const K & k, const Color & q)
      {
         if((int)q.mode() != k.mode)return false;
         switch(k.mode)
         {
            case 0: return isGrey(q, k.v[0], k.alpha);
            case 1: return isRgb(q, k.v[0], k.v[1], k.v[2], k.alpha);
            default: return isCmyk(q, k.v[0], k.v[1], k.v[2], k.v[3], k.alpha);
         }
      };
      auto equal = [](const K & a, const K & b)
      {
         if(a.mode != b.mode || a.alpha != b.alpha)return false;
         int n = a.mode == 0 ? 1 : a.mode == 1 ? 3 : 4;
         for(int i = 0; i < n; i++)if(a.v[i] != b.v[i])return false;
         return true;
      };
      EXPECT(c, isRgb(Color(), 0, 0, 0, 255), "the default colour is %s", txt(Color()).c_str());
      EXPECT(c, Color::fromGrey(3).alpha() == 255 && Color::fromRgb(3, 4, 5).alpha() == 255 && Color::fromCmyk(3, 4, 5, 6).alpha() == 255, "the default alpha");
      K a, b;
      Color A = make(a), B = make(b);
      int depth = mc::tier(2, 3);
      for(int i = 0; i <= depth; i++)
      {
         c.trans();
         EXPECT(c, same(a, A) && same(b, B), "after %d changes: %s, %s", i, txt(A).c_str(), txt(B).c_str());
         EXPECT(c, (A == B) == equal(a, b) && (A != B) == !equal(a, b) && (B == A) == equal(a, b), "%s == %s: %d", txt(A).c_str(), txt(B).c_str(), (int)(A == B));
         EXPECT(c, A == A && !(A != A), "%s is not equal to itself", txt(A).c_str());
         if(a.mode == b.mode)
         {
            K s = a, d = a;
            for(int x = 0; x < 4; x++)s.v[x] = (a.v[x] + b.v[x]) & 255, d.v[x] = (a.v[x] - b.v[x]) & 255;
            s.alpha = (a.alpha + b.alpha) & 255, d.alpha = (a.alpha - b.alpha) & 255;
            EXPECT(c, same(s, A + B), "%s + %s is %s", txt(A).c_str(), txt(B).c_str(), txt(A + B).c_str());
            EXPECT(c, same(d, A - B), "%s - %s is %s", txt(A).c_str(), txt(B).c_str(), txt(A - B).c_str());
            EXPECT(c, A + B - B == A, "%s + %s - %s is %s", txt(A).c_str(), txt(B).c_str(), txt(B).c_str(), txt(A + B - B).c_str());
         }
         Color copy(A);
         EXPECT(c, same(a, copy), "the copy of %s is %s", txt(A).c_str(), txt(copy).c_str());
         if(i == depth)break;
         int op = c.choose(7), v = c.choose(2) ? 255 : 7;
         switch(op)
         {
            case 0:
               A.setAlpha((uint8)v), a.alpha = v;
               break;
            case 1:
            case 2:
            case 3:
            case 4:
            {
               int x = op - 1, n = a.mode == 0 ? 1 : a.mode == 1 ? 3 : 4;
               if(x >= n)return;
               a.v[x] = v;
               if(a.mode == 0)A.setGrey((uint8)v);
               else if(a.mode == 1)x == 0 ? A.setRed((uint8)v) : x == 1 ? A.setGreen((uint8)v) : A.setBlue((uint8)v);
               else x == 0 ? A.setCyan((uint8)v) : x == 1 ? A.setMagenta((uint8)v) : x == 2 ? A.setYellow((uint8)v) : A.setKey((uint8)v);
               break;
            }
            case 5:
               B = A, b = a;
               break;
            case 6: // the mode is set without conversion of values, all of them are set afterwards
               A.setMode(v == 7 ? ColorMode::kGrey : ColorMode::kCmyk);
               if(v == 7)A.setGrey(9), a.mode = 0, a.v[0] = 9;
               else
               {
                  a.mode = 2;
                  for(int x = 0; x < 4; x++)a.v[x] = 10 + x;
                  A.setCyan(10), A.setMagenta(11), A.setYellow(12), A.setKey(13);
               }
               break;
         }
         c.step("change %d %d", op, v);
      }
   }
}
void defineScenarios()
{
   useLibrary();
   mc::scenario("rgb", {1, "all 2^24 RGB colours: grey, CMYK, HSV, back from HSV"}, [](mc::Ctx & c)
   {
      int r = c.choose(256), q = mc::thorough() ? 0 : c.choose(4);
      for(int g = mc::thorough() ? 0 : q * 64; g < (mc::thorough() ? 256 : q * 64 + 64); g++)for(int b = 0; b < 256; b++)rgb(c, r, g, b, (r * 5 + g * 3 + b) & 255);
   });
   mc::scenario("grey", {1, "all grey values with all alpha values"}, grey);
   mc::scenario("cmyk", {1, "all pairs of key and one of the other components in each place, the two others over 11 and 3 (thorough 11) values"}, cmyk);
   mc::scenario("hsv", {1, "all hues in degrees (thorough: tenths), 21 saturations and values"}, hsv);
   mc::scenario("blend opaque, interpolate", {1, "all values for alpha, background and foreground"}, blendOpaque);
   mc::scenario("blend transparent", {2, "all pairs of alpha values, 21 (thorough 86) values for both components"}, blendTransparent);
   mc::scenario("access", {2, "all pairs of 12 colours, all sequences of 2 (thorough 3) changes"}, accessAll);
}
