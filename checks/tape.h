#pragma once
// A checkpoint stream that reports reads beyond its end
#include <sstream>
#include "vp.h"
struct TapeBuf : public std::stringbuf
{
  virtual int_type underflow() override { const int_type c = std::stringbuf::underflow(); vp_check( c != traits_type::eof(), "nothing is read beyond the end of what was written" ); return c; }
};
struct TapeHolder { TapeBuf buf; };
struct Tape final : private TapeHolder, public std::iostream { Tape() : std::iostream( &buf ) {} std::string str() const { return buf.str(); } };
