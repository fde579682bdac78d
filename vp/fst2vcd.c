/* fst2vcd FILE.fst: print as VCD using the FST reader of the tree under test. */
#include <stdio.h>
#include "fstapi.h"
int main(int argc, char **argv)
{
   void *xc = argc > 1 ? fstReaderOpen(argv[1]) : NULL;
   if (xc == NULL) return 3;
   fstReaderSetVcdExtensions(xc, 1);
   if (!fstReaderProcessHier(xc, stdout)) return 4;
   fstReaderSetFacProcessMaskAll(xc);
   if (!fstReaderIterBlocks(xc, NULL, NULL, stdout)) return 5;
   fstReaderClose(xc);
   return 0;
}
