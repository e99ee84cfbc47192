// Assumed contracts of the formatted output of the C++ library: text and numbers arrive in the order of the calls.
#include "c24_rec.hpp"
Written written;

static void text(const char* s, long n)
{
   for (long i = 0; i < n; ++i) {
      written.text[written.n++] = s[i];
      if (s[i] == '\n') { written.line[++written.lines] = written.n; written.first[written.lines] = written.m; }
   }
}

static void number(double x)
{
   written.text[written.n++] = 1;
   written.num[written.m++] = x;
}

extern "C" {
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char* s, long n) { text(s, n); return o; }
void* _ZNSo3putEc(void* o, char c) { text(&c, 1); return o; }
void* _ZNSo9_M_insertIdEERSoT_(void* o, double x) { number(x); return o; }
void* _ZNSo9_M_insertIeEERSoT_(void* o, long double x) { number(x); return o; }
void* _ZNSo9_M_insertIlEERSoT_(void* o, long x) { number(x); return o; }
void* _ZNSo9_M_insertImEERSoT_(void* o, unsigned long x) { number(x); return o; }
void* _ZNSo9_M_insertIbEERSoT_(void* o, bool x) { number(x); return o; }
void* _ZNSolsEi(void* o, int x) { number(x); return o; }
}
