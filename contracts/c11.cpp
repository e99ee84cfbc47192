// C11: dilogarithm
#include "vc.hpp"
#include "himalaya/misc/Li2.hpp"
#include "himalaya/mh2l/Li2f.hpp"
#include <complex>

VC c11_real()
{
   const double x = vc_double("x");
   vc_out("value", himalaya::dilog(x));
}

VC c11_clausen()
{
   const double x = vc_double("x");
   vc_out("value", himalaya::clausen_2(x));
}

VC c11_complex()
{
   const double x = vc_double("x"), y = vc_double("y");
   vc_assume(y > 0 || y < 0);
   const std::complex<double> r = himalaya::dilog(std::complex<double>(x, y));
   vc_out("re", r.real());
   vc_out("im", r.imag());
}

// on the real axis the complex function is the real one, with the imaginary part of the branch below the cut
VC c11_axis()
{
   const double x = vc_double("x");
   const std::complex<double> r = himalaya::dilog(std::complex<double>(x, 0.));
   vc_same("real part", r.real(), himalaya::dilog(x));
   vc_same("imaginary part", r.imag(), x <= 1 ? 0 : -3.141592653589793*vc_log(x));
}

// wrappers of the external routine: argument and result are passed through
VC c11_wrapper_complex()
{
   const double x = vc_double("x"), y = vc_double("y");
   const std::complex<double> r = himalaya::li2(std::complex<double>(x, y));
   vc_same("real part", r.real(), vc_fn2("li2c.re", x, y));
   vc_same("imaginary part", r.imag(), vc_fn2("li2c.im", x, y));
}

VC c11_wrapper_real()
{
   const double x = vc_double("x");
   vc_same("real part", himalaya::li2(x), vc_fn2("li2c.re", x, 0.));
}
