// Vocabulary of the contracts.  In the verifier these are interpreted by vc/intrinsics.py;
// contracts/vc_native.cpp gives them a concrete meaning to replay a counterexample on the real code.
#ifndef VC_HPP
#define VC_HPP
extern "C" {
// arbitrary input values
double vc_double(const char* name);
int vc_int(const char* name);
int vc_range(const char* name, int lo, int hi);   ///< case split over lo..hi
int vc_bool(const char* name);
void vc_havoc(void* p, unsigned long size, const char* name); ///< arbitrary object contents
double vc_sym(const char* name, int i);                   ///< arbitrary value, one per name and index
double vc_sym2(const char* name, int i, int j);
int vc_flag(const char* name, int i);                     ///< arbitrary truth value, one per name and index (split into cases)
int vc_cond(const char* name, int i);                     ///< the same truth value without case split
double vc_fnv(const char* name, const double* x, int n);  ///< arbitrary function of x
void vc_join(int point);                                  ///< paths in the same state are joined here, points in ascending order
// precondition
void vc_assume(int cond);
// postconditions
void vc_check(const char* label, int cond);             ///< boolean obligation
void vc_same(const char* label, double code, double spec); ///< equal as exact expressions
void vc_near(const char* label, double code, double spec); ///< equal, or its expansion near a locus named in the specification script
void vc_ident(const char* label, double code, double spec); ///< same floating-point value (or both NaN)
void vc_iident(const char* label, long code, long spec);
void vc_out(const char* label, double x);               ///< exported to the specification script
void vc_mark(const char* label);                        ///< reachability marker
void vc_frame(const char* label, const void* p, unsigned long size, const void* q); ///< objects bytewise equal
// specification functions
double vc_log(double x);
double vc_li2(double x);
double vc_sqrt(double x);
double vc_abs(double x);
double vc_fn1(const char* name, double x);
double vc_fn2(const char* name, double x, double y);
double vc_fn3(const char* name, double x, double y, double z);
}
#define VC extern "C" void
#endif
