// JSON reader of the json5_parser stand-in (strict JSON plus NaN/Infinity).
#ifndef VERIF_JSON5_STUB_READER_H
#define VERIF_JSON5_STUB_READER_H
#include "json5_parser_value.h"
#include <istream>
#include <iterator>
#include <cstdlib>
#include <cerrno>
#include <cmath>
#include <limits>

namespace json5_parser
{
  struct StubReader
  {
    const char *p, *e;
    StubReader(const std::string& s): p(s.data()), e(s.data()+s.size()) {}
    void fail() {throw std::runtime_error("json parse error");}
    void ws() {while (p<e && (*p==' '||*p=='\t'||*p=='\n'||*p=='\r')) ++p;}
    bool lit(const char* s)
    {
      const char* q=p;
      while (*s) {if (q>=e || *q!=*s) return false; ++q; ++s;}
      p=q; return true;
    }
    static void utf8(std::string& o, unsigned c)
    {
      if (c<0x80) o+=char(c);
      else if (c<0x800) {o+=char(0xC0|(c>>6)); o+=char(0x80|(c&0x3F));}
      else {o+=char(0xE0|(c>>12)); o+=char(0x80|((c>>6)&0x3F)); o+=char(0x80|(c&0x3F));}
    }
    std::string str()
    {
      std::string r;
      ++p;
      for (;;)
        {
          if (p>=e) fail();
          if (*p=='"') {++p; return r;}
          if (*p!='\\') {r+=*p++; continue;}
          if (++p>=e) fail();
          char c=*p++;
          switch (c)
            {
            case 'n': r+='\n'; break; case 't': r+='\t'; break; case 'r': r+='\r'; break;
            case 'b': r+='\b'; break; case 'f': r+='\f'; break;
            case 'u':
              {
                if (e-p<4) fail();
                unsigned v=0;
                for (int i=0; i<4; ++i,++p)
                  {
                    v<<=4;
                    if (*p>='0'&&*p<='9') v|=*p-'0';
                    else if (*p>='a'&&*p<='f') v|=*p-'a'+10;
                    else if (*p>='A'&&*p<='F') v|=*p-'A'+10;
                    else fail();
                  }
                utf8(r,v);
                break;
              }
            default: r+=c;
            }
        }
    }
    mValue value(int depth=0)
    {
      if (depth>2000) fail();
      ws();
      if (p>=e) fail();
      if (*p=='{')
        {
          mObject o; ++p; ws();
          if (p<e && *p=='}') {++p; return o;}
          for (;;)
            {
              ws(); if (p>=e||*p!='"') fail();
              std::string k=str();
              ws(); if (p>=e||*p!=':') fail();
              ++p;
              o[k]=value(depth+1);
              ws(); if (p>=e) fail();
              if (*p==',') {++p; continue;}
              if (*p=='}') {++p; return o;}
              fail();
            }
        }
      if (*p=='[')
        {
          mArray a; ++p; ws();
          if (p<e && *p==']') {++p; return a;}
          for (;;)
            {
              a.push_back(value(depth+1));
              ws(); if (p>=e) fail();
              if (*p==',') {++p; continue;}
              if (*p==']') {++p; return a;}
              fail();
            }
        }
      if (*p=='"') return str();
      if (lit("true")) return true;
      if (lit("false")) return false;
      if (lit("null")) return mValue();
      if (lit("NaN")) return std::numeric_limits<double>::quiet_NaN();
      if (lit("Infinity")) return std::numeric_limits<double>::infinity();
      if (lit("-Infinity")) return -std::numeric_limits<double>::infinity();
      const char* q=p;
      bool isReal=false;
      if (q<e && (*q=='-'||*q=='+')) ++q;
      const char* d0=q;
      while (q<e && (std::isdigit((unsigned char)*q)||*q=='.'||*q=='e'||*q=='E'||((*q=='-'||*q=='+')&&(q[-1]=='e'||q[-1]=='E'))))
        {if (!std::isdigit((unsigned char)*q)) isReal=true; ++q;}
      if (q==d0) fail();
      std::string n(p,q);
      p=q;
      if (!isReal)
        {
          errno=0;
          if (n[0]=='-')
            {
              long long v=strtoll(n.c_str(),NULL,10);
              if (!errno) return boost::int64_t(v);
            }
          else
            {
              unsigned long long v=strtoull(n.c_str(),NULL,10);
              if (!errno)
                {
                  if (v<=(unsigned long long)std::numeric_limits<long long>::max()) return boost::int64_t(v);
                  return boost::uint64_t(v);
                }
            }
        }
      return strtod(n.c_str(),NULL);
    }
  };

  inline bool read_string(const std::string& s, mValue& v)
  {
    try {StubReader r(s); mValue t=r.value(); r.ws(); if (r.p!=r.e) return false; v=t; return true;}
    catch (const std::runtime_error&) {return false;}
  }
  // one value at the start of the range; begin is left after it
  template <class I> bool read_range(I& begin, I end, mValue& v)
  {
    std::string s(begin,end);
    try {StubReader r(s); mValue t=r.value(); std::advance(begin,r.p-s.data()); v=t; return true;}
    catch (const std::runtime_error&) {return false;}
  }
  inline bool read_stream(std::istream& is, mValue& v)
  {
    std::string s((std::istreambuf_iterator<char>(is)),std::istreambuf_iterator<char>());
    return read_string(s,v);
  }
}
#endif
