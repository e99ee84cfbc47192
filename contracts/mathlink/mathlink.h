// Declarations of the MathLink functions used by the LibraryLink module (Mathematica is not installed here).
#ifndef VC_MATHLINK
#define VC_MATHLINK
extern "C" {
typedef struct VcMLink* MLINK;
int MLPutSymbol(MLINK, const char*);
int MLPutInteger(MLINK, int);
int MLPutReal(MLINK, double);
int MLPutRealList(MLINK, const double*, int);
int MLPutDoubleArray(MLINK, const double*, const long* dims, char** heads, long depth);
int MLPutFunction(MLINK, const char*, int);
int MLPutUTF8Symbol(MLINK, const unsigned char*, int);
int MLPutUTF8String(MLINK, const unsigned char*, int);
int MLPutString(MLINK, const char*);
int MLPutReal64(MLINK, double);
int MLPutReal64List(MLINK, const double*, int);
int MLPutReal64Array(MLINK, const double*, const int* dims, const char** heads, int depth);
int MLPutInteger32(MLINK, int);
int MLPutInteger64(MLINK, long);
int MLCheckFunction(MLINK, const char*, long*);
int MLTestHead(MLINK, const char*, int*);
int MLGetReal64(MLINK, double*);
int MLGetReal(MLINK, double*);
int MLNewPacket(MLINK);
int MLEndPacket(MLINK);
}
#endif
