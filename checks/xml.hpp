// Events of an XML document, a recording parser and a small strict reader of its own.
#pragma once
#include "lib.hpp"

namespace xml
{
   typedef std::u16string Str;
   struct Ev
   {
      char kind; // S start, E end, T text, P processing instruction
      Str name, local;
      std::vector<std::pair<Str, Str>> attr;
      bool operator==(const Ev& o) const
      {
         return kind == o.kind && name == o.name && local == o.local && attr == o.attr;
      }
   };
   typedef std::vector<Ev> Doc;
   inline Str localOf(const Str& n)
   {
      size_t p = n.rfind(u':');
      return p == Str::npos ? n : n.substr(p + 1);
   }
   inline void text(Doc& d, const Str& s)
   {
      if(s.empty())return;
      if(!d.empty() && d.back().kind == 'T')d.back().name += s;
      else d.push_back({'T', s, {}, {}});
   }
   inline void start(Doc& d, const Str& n)
   {
      d.push_back({'S', n, localOf(n), {}});
   }
   inline void end(Doc& d, const Str& n)
   {
      d.push_back({'E', n, localOf(n), {}});
   }
   inline std::string show(const Doc& d)
   {
      std::string r;
      for(const Ev& e : d)
      {
         r += e.kind;
         r += '(' + P(e.name);
         if(e.kind == 'P')r += ' ' + P(e.local);
         for(auto& a : e.attr)r += ' ' + P(a.first) + "='" + P(a.second) + '\'';
         r += ") ";
      }
      return r;
   }
   inline bool blank(const Str& s)
   {
      return s.find_first_not_of(u" \t\r\n") == Str::npos;
   }
   // white space around the root element is no text of the document
   inline Doc inner(const Doc& d)
   {
      Doc r;
      int depth = 0;
      for(const Ev& e : d)
      {
         if(e.kind == 'S')depth++;
         if(e.kind == 'E')depth--;
         if(e.kind == 'T' && depth == 0 && blank(e.name))continue;
         r.push_back(e);
      }
      return r;
   }
   struct Rec: public jm::SAXParser
   {
      Doc d;
      int started = 0, ended = 0;
      bool order = true, locals = true, uris = true;
      // white space is left out only next to white space that is part of the characters
      Str last;
      bool pending = false;
      void next(const Str& chars = Str())
      {
         if(pending && (chars.empty() || !xml::blank(chars.substr(0, 1))))order = false;
         pending = false;
         last = chars;
      }
      void startDocument() override
      {
         if(started || !d.empty())order = false;
         started++;
      }
      void endDocument() override
      {
         next();
         ended++;
      }
      void startElement(const jm::String& uri, const jm::String& local, const jm::String& q, const jm::SAXAttributes& a) override
      {
         next();
         if(ended || !started)order = false;
         if(uri.size())uris = false;
         Ev e{'S', U(q), U(local), {}};
         for(uint32 i = 0; i < a.count(); i++)
         {
            e.attr.push_back({U(a.qualifiedName(i)), U(a.value(i))});
         }
         d.push_back(e);
      }
      void endElement(const jm::String& uri, const jm::String& local, const jm::String& q) override
      {
         next();
         if(ended || !started)order = false;
         if(uri.size())uris = false;
         d.push_back({'E', U(q), U(local), {}});
      }
      void characters(const jm::String& s) override
      {
         if(ended || !started)order = false;
         next(U(s));
         xml::text(d, U(s));
      }
      void ignorableWhiteSpaces(const jm::String& s) override
      {
         if(ended || !started)order = false;
         if(!xml::blank(U(s)))order = false;
         if(last.empty() || !xml::blank(last.substr(last.size() - 1)))pending = true;
         xml::text(d, U(s));
      }
      void processingInstruction(const jm::String& t, const jm::String& data) override
      {
         next();
         if(ended || !started)order = false;
         d.push_back({'P', U(t), U(data), {}});
      }
   };
   // Reads elements, attributes, text and references; anything that is not well-formed is an error.
   struct Strict
   {
      const Str& s;
      size_t i = 0;
      Doc d;
      std::string error;
      explicit Strict(const Str& t): s(t) {}
      bool at(const char* m) const
      {
         for(size_t k = 0; m[k]; k++)if(i + k >= s.size() || s[i + k] != (char16_t)(unsigned char)m[k])return false;
         return true;
      }
      bool bad(const char* why)
      {
         if(error.empty())error = mc::fmt("%s at %zu", why, i);
         return false;
      }
      void space()
      {
         while(i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r'))i++;
      }
      static bool nameChar(char16_t c)
      {
         return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == ':' || c == '_' || c == '-' || c == '.' || c > 0xB7;
      }
      bool name(Str& n)
      {
         size_t b = i;
         while(i < s.size() && nameChar(s[i]))i++;
         n = s.substr(b, i - b);
         if(n.empty() || (n[0] >= '0' && n[0] <= '9') || n[0] == '-' || n[0] == '.')return bad("no name");
         return true;
      }
      bool reference(Str& out)
      {
         static const std::pair<const char*, char16_t> REF[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}};
         for(auto& r : REF)if(at(r.first))
            {
               out += r.second;
               i += strlen(r.first);
               return true;
            }
         return bad("unknown reference");
      }
      bool parse()
      {
         if(at("<?xml "))
         {
            while(i < s.size() && !at("?>"))i++;
            if(!at("?>"))return bad("declaration not closed");
            i += 2;
         }
         space();
         if(!element())return false;
         space();
         return i == s.size() ? true : bad("content behind the root element");
      }
      bool element()
      {
         if(!at("<"))return bad("no element");
         i++;
         Str n;
         if(!name(n))return false;
         start(d, n);
         size_t me = d.size() - 1;
         while(true)
         {
            size_t b = i;
            space();
            if(at("/>"))
            {
               i += 2;
               end(d, n);
               return true;
            }
            if(at(">"))
            {
               i++;
               break;
            }
            if(b == i)return bad("no space before attribute");
            Str a, v;
            if(!name(a))return false;
            if(!at("="))return bad("no =");
            i++;
            if(!at("\"") && !at("'"))return bad("no quote");
            char16_t q = s[i++];
            while(i < s.size() && s[i] != q)
            {
               if(s[i] == '<')return bad("< in attribute");
               if(s[i] == '&')
               {
                  if(!reference(v))return false;
               }
               else v += s[i++];
            }
            if(i >= s.size())return bad("attribute not closed");
            i++;
            for(auto& o : d[me].attr)if(o.first == a)return bad("attribute twice");
            d[me].attr.push_back({a, v});
         }
         while(true)
         {
            if(i >= s.size())return bad("element not closed");
            if(at("</"))
            {
               i += 2;
               Str e;
               if(!name(e))return false;
               if(e != n)return bad("wrong end tag");
               space();
               if(!at(">"))return bad("end tag not closed");
               i++;
               end(d, n);
               return true;
            }
            if(at("<"))
            {
               if(!element())return false;
            }
            else if(at("&"))
            {
               Str t;
               if(!reference(t))return false;
               xml::text(d, t);
            }
            else
            {
               if(at("]]>"))return bad("]]> in text");
               xml::text(d, Str(1, s[i++]));
            }
         }
      }
   };
}
