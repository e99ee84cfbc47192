// C18: values of the constants left arbitrary in c18.cpp
#include "vc.hpp"
#include "himalaya/misc/Constants.hpp"
VC c18_constants()
{
   using namespace himalaya;
   vc_out("Pi", Pi); vc_out("z2", z2); vc_out("z3", z3); vc_out("z4", z4); vc_out("log2", log2);
   vc_out("B4", B4); vc_out("D3", D3); vc_out("DN", DN); vc_out("OepS2", OepS2); vc_out("S2", S2); vc_out("T1ep", T1ep);
}
