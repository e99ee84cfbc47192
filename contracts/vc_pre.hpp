// keeps the formatting of numbers in messages out of line, so that the verifier can skip it
#ifndef VC_PRE
#define VC_PRE
#include <bits/c++config.h>
#include <bits/stringfwd.h>
#define VC_NI __attribute__((noinline))
namespace std {
_GLIBCXX_BEGIN_NAMESPACE_CXX11
VC_NI string to_string(int) noexcept;
VC_NI string to_string(unsigned) noexcept;
VC_NI string to_string(long);
VC_NI string to_string(unsigned long);
VC_NI string to_string(long long);
VC_NI string to_string(unsigned long long);
VC_NI string to_string(float);
VC_NI string to_string(double);
VC_NI string to_string(long double);
_GLIBCXX_END_NAMESPACE_CXX11
}
#endif
