// Declarations of the Wolfram LibraryLink interface used by the LibraryLink module (Mathematica is not installed here).
#ifndef VC_WOLFRAM
#define VC_WOLFRAM
typedef struct VcWolfram* WolframLibraryData;
typedef long mint;
#define DLLEXPORT __attribute__((visibility("default")))
#define LIBRARY_NO_ERROR 0
#define LIBRARY_TYPE_ERROR 1
#define WolframLibraryVersion 7
#endif
