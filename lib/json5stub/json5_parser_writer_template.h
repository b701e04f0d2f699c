// JSON writer of the json5_parser stand-in.
#ifndef VERIF_JSON5_STUB_WRITER_H
#define VERIF_JSON5_STUB_WRITER_H
#include "json5_parser_value.h"
#include <ostream>
#include <sstream>
#include <cstdio>
#include <cmath>

namespace json5_parser
{
  enum Output_options{ none = 0, pretty_print = 0x01, raw_utf8 = 0x02, remove_trailing_zeros = 0x04, single_line_arrays = 0x08 };

  inline std::string stubQuote(const std::string& s)
  {
    std::string r="\"";
    for (size_t i=0; i<s.size(); ++i)
      {
        unsigned char c=s[i];
        if (c=='"'||c=='\\') {r+='\\'; r+=char(c);}
        else if (c=='\n') r+="\\n";
        else if (c<0x20) {char b[8]; snprintf(b,sizeof(b),"\\u%04X",c); r+=b;}
        else r+=char(c);
      }
    return r+"\"";
  }
  inline void stubWrite(const mValue& v, std::ostream& o, bool pretty, int ind)
  {
    std::string nl=pretty? "\n"+std::string(2*ind+2,' '): "", nle=pretty? "\n"+std::string(2*ind,' '): "";
    switch (v.type())
      {
      case obj_type:
        {
          o<<'{';
          bool first=true;
          for (mObject::const_iterator i=v.get_obj().begin(); i!=v.get_obj().end(); ++i)
            {
              if (!first) o<<',';
              first=false;
              o<<nl<<stubQuote(i->first)<<':';
              stubWrite(i->second,o,pretty,ind+1);
            }
          o<<nle<<'}';
          break;
        }
      case array_type:
        o<<'[';
        for (size_t i=0; i<v.get_array().size(); ++i)
          {
            if (i) o<<',';
            o<<nl;
            stubWrite(v.get_array()[i],o,pretty,ind+1);
          }
        o<<nle<<']';
        break;
      case str_type: o<<stubQuote(v.get_str()); break;
      case bool_type: o<<(v.get_bool()?"true":"false"); break;
      case int_type:
        {
          char b[32];
          if (v.is_uint64()) snprintf(b,sizeof(b),"%llu",(unsigned long long)v.get_uint64());
          else snprintf(b,sizeof(b),"%lld",(long long)v.get_int64());
          o<<b;
          break;
        }
      case real_type:
        {
          double d=v.get_real();
          if (std::isnan(d)) o<<"NaN";
          else if (std::isinf(d)) o<<(d>0?"Infinity":"-Infinity");
          else
            {
              char b[64]; snprintf(b,sizeof(b),"%.17g",d);
              std::string s(b);
              if (s.find_first_of(".eE")==std::string::npos) s+=".0";
              o<<s;
            }
          break;
        }
      case null_type: o<<"null"; break;
      }
  }
  inline void write_stream(const mValue& v, std::ostream& o, unsigned options=0)
  {stubWrite(v,o,options&pretty_print,0);}
  inline std::string write_string(const mValue& v, unsigned options=0)
  {std::ostringstream o; stubWrite(v,o,options&pretty_print,0); return o.str();}
}
#endif
