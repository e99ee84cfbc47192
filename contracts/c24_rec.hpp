// what was written to an output stream: text with \1 in place of each number
#ifndef C24_REC
#define C24_REC
struct Written {
   char text[8192];
   int n;
   double num[256];
   int m;
   int line[256];    ///< begin of the lines
   int first[256];   ///< first number of the lines
   int lines;
};
extern "C" Written written;
#endif
