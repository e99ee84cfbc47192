// C04: selection of the mass hierarchy
#include "hc.hpp"

// which hierarchies are compatible with the mass spectrum -------------------
static bool compatible(int h, double m1, double m2, double mg, double msq)
{
   if ((m2 > 1.3 * msq) | (mg > 1.3 * msq)) return false;
   const bool split = m2 - m1 > 0.1 * m1;
   const double d1 = vc_abs(mg - m1), d2 = vc_abs(mg - m2);
   const bool light = split & (mg - m1 < d2), heavy = split & (m2 - mg < d1);
   switch (h) {
   case H::h3: return mg > m2;
   case H::h32q2g: return (m2 >= msq) & (m2 > mg);
   case H::h3q22g: return (m2 < msq) & (m2 > mg);
   case H::h4: return (m1 < msq) & (m1 >= mg);
   case H::h5: return light & (m2 < msq) & (m1 >= mg);
   case H::h5g1: return light & (m2 < msq) & (m1 < mg);
   case H::h6: return heavy & (1.3 * m2 < msq) & (m2 >= mg);
   case H::h6g2: return heavy & (1.3 * m2 < msq) & (m2 < mg);
   case H::h6b: return heavy & (m2 >= msq) & (m2 >= mg);
   case H::h6b2qg2: return heavy & (m2 >= msq) & (m2 < mg);
   case H::h6bq22g: return heavy & (m2 < msq) & (m2 >= mg);
   case H::h6bq2g2: return heavy & (m2 < msq) & (m2 < mg);
   case H::h9: return (m2 >= msq) & (m2 - m1 < m1 - mg);
   case H::h9q2: return (m2 < msq) & (m2 - m1 < m1 - mg);
   }
   return false;
}

static void suitable(bool ab, int lo, int hi)
{
   Calc c;
   HierarchyObject ho(ab);
   const int h = vc_range("hierarchy", lo, hi);
   ho.hierarchy = h;
   const double m1 = ab ? c->p.MSb(0) : c->p.MSt(0), m2 = ab ? c->p.MSb(1) : c->p.MSt(1);
   vc_assume((m1 > 0) & (m2 >= m1) & (c->p.MG >= 0));
   const bool r = c->isHierarchySuitable(ho);
   const bool s = compatible(h, m1, m2, c->p.MG, vc_sqrt(vc_abs(c->p.calculateMsq2())));
   vc_check("suitable exactly if compatible", r == s);
}

VC c04_suitable_t0() { suitable(false, -1, 4); }
VC c04_suitable_t1() { suitable(false, 5, 9); }
VC c04_suitable_t2() { suitable(false, 10, 14); }
VC c04_suitable_b0() { suitable(true, -1, 4); }
VC c04_suitable_b1() { suitable(true, 5, 9); }
VC c04_suitable_b2() { suitable(true, 10, 14); }

// variants that differ by the ordering of the squark or gluino mass only
VC c04_exclusive()
{
   Calc c;
   HierarchyObject ho(vc_bool("alphab"));
   static const int pairs[][2] = { { H::h32q2g, H::h3q22g }, { H::h3, H::h32q2g }, { H::h3, H::h3q22g }, { H::h5, H::h5g1 }, { H::h6, H::h6g2 },
      { H::h6b, H::h6b2qg2 }, { H::h6b, H::h6bq22g }, { H::h6b, H::h6bq2g2 }, { H::h6b2qg2, H::h6bq22g }, { H::h6b2qg2, H::h6bq2g2 },
      { H::h6bq22g, H::h6bq2g2 }, { H::h9, H::h9q2 } };
   const int k = vc_range("pair", 0, 11);
   ho.hierarchy = pairs[k][0];
   if (!c->isHierarchySuitable(ho)) { vc_check("exclusive", 1); return; }
   ho.hierarchy = pairs[k][1];
   vc_check("exclusive", !c->isHierarchySuitable(ho));
}
