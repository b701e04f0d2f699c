// a type with stream operators and no descriptor
#ifndef VERIF_STREAM_TYPE_H
#define VERIF_STREAM_TYPE_H
#include <iostream>
struct Streamed
{
  int a, b;
  Streamed(): a(0), b(0) {}
};
inline std::ostream& operator<<(std::ostream& o, const Streamed& x) {return o<<x.a<<"/"<<x.b;}
inline std::istream& operator>>(std::istream& i, Streamed& x) {char c; return i>>x.a>>c>>x.b;}
#endif
