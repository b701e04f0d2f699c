// Stand-in for the json5_parser submodule (empty in this checkout), written for /verif.
// It offers the json_spirit style API which json_pack_base.h and friends use.
// It is part of the test machinery (trusted), not code under test.
#ifndef VERIF_JSON5_STUB_VALUE_H
#define VERIF_JSON5_STUB_VALUE_H
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <algorithm>
#include <cctype>
#include <cassert>
#include <stdexcept>
#include <boost/cstdint.hpp>

namespace json5_parser
{
  enum Value_type{ obj_type, array_type, str_type, bool_type, int_type, real_type, null_type };

  class mValue;
  typedef std::map<std::string,mValue> mObject;
  typedef std::vector<mValue> mArray;

  class mValue
  {
    Value_type m_type;
    bool m_unsigned;
    boost::int64_t m_int;
    double m_real;
    std::string m_str;
    std::shared_ptr<mObject> m_obj;
    std::shared_ptr<mArray> m_arr;
    void chk(Value_type t) const
    { if (t!=m_type) throw std::runtime_error("get_value< type > called on wrong value type"); }
  public:
    mValue(): m_type(null_type), m_unsigned(false), m_int(0), m_real(0) {}
    mValue(const char* s): m_type(str_type), m_unsigned(false), m_int(0), m_real(0), m_str(s) {}
    mValue(const std::string& s): m_type(str_type), m_unsigned(false), m_int(0), m_real(0), m_str(s) {}
    inline mValue(const mObject& o);
    inline mValue(const mArray& a);
    mValue(bool x): m_type(bool_type), m_unsigned(false), m_int(x), m_real(0) {}
    mValue(int x): m_type(int_type), m_unsigned(false), m_int(x), m_real(0) {}
    mValue(boost::int64_t x): m_type(int_type), m_unsigned(false), m_int(x), m_real(0) {}
    mValue(boost::uint64_t x): m_type(int_type), m_unsigned(true), m_int((boost::int64_t)x), m_real(0) {}
    mValue(double x): m_type(real_type), m_unsigned(false), m_int(0), m_real(x) {}
    inline mValue(const mValue& o);
    inline mValue& operator=(const mValue& o);
    inline bool operator==(const mValue& o) const;
    bool operator!=(const mValue& o) const {return !(*this==o);}

    Value_type type() const {return m_type;}
    bool is_uint64() const {return m_unsigned;}
    bool is_null() const {return m_type==null_type;}

    const std::string& get_str() const {chk(str_type); return m_str;}
    const mObject& get_obj() const {chk(obj_type); return *m_obj;}
    const mArray& get_array() const {chk(array_type); return *m_arr;}
    mObject& get_obj() {chk(obj_type); return *m_obj;}
    mArray& get_array() {chk(array_type); return *m_arr;}
    bool get_bool() const {chk(bool_type); return m_int!=0;}
    int get_int() const {chk(int_type); return (int)m_int;}
    boost::int64_t get_int64() const {chk(int_type); return m_int;}
    boost::uint64_t get_uint64() const {chk(int_type); return (boost::uint64_t)m_int;}
    double get_real() const
    {
      if (m_type==int_type) return m_unsigned? (double)(boost::uint64_t)m_int: (double)m_int;
      chk(real_type); return m_real;
    }
    template <class T> T get_value() const;
  };

  inline mValue::mValue(const mObject& o): m_type(obj_type), m_unsigned(false), m_int(0), m_real(0), m_obj(new mObject(o)) {}
  inline mValue::mValue(const mArray& a): m_type(array_type), m_unsigned(false), m_int(0), m_real(0), m_arr(new mArray(a)) {}
  inline mValue::mValue(const mValue& o): m_type(o.m_type), m_unsigned(o.m_unsigned), m_int(o.m_int), m_real(o.m_real), m_str(o.m_str)
  {
    if (o.m_obj) m_obj.reset(new mObject(*o.m_obj));
    if (o.m_arr) m_arr.reset(new mArray(*o.m_arr));
  }
  inline mValue& mValue::operator=(const mValue& o)
  {
    mValue t(o);
    m_type=t.m_type; m_unsigned=t.m_unsigned; m_int=t.m_int; m_real=t.m_real;
    m_str.swap(t.m_str); m_obj.swap(t.m_obj); m_arr.swap(t.m_arr);
    return *this;
  }
  inline bool mValue::operator==(const mValue& o) const
  {
    if (m_type!=o.m_type) return false;
    switch (m_type)
      {
      case obj_type: return *m_obj==*o.m_obj;
      case array_type: return *m_arr==*o.m_arr;
      case str_type: return m_str==o.m_str;
      case bool_type: return m_int==o.m_int;
      case int_type: return m_int==o.m_int && m_unsigned==o.m_unsigned;
      case real_type: return m_real==o.m_real;
      default: return true;
      }
  }

  template <> inline int mValue::get_value<int>() const {return get_int();}
  template <> inline bool mValue::get_value<bool>() const {return get_bool();}
  template <> inline boost::int64_t mValue::get_value<boost::int64_t>() const {return get_int64();}
  template <> inline boost::uint64_t mValue::get_value<boost::uint64_t>() const {return get_uint64();}
  template <> inline double mValue::get_value<double>() const {return get_real();}
  template <> inline std::string mValue::get_value<std::string>() const {return get_str();}
  template <> inline mObject mValue::get_value<mObject>() const {return get_obj();}
  template <> inline mArray mValue::get_value<mArray>() const {return get_array();}
}
#endif
