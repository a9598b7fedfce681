#ifndef _FAULTWRAP_H_
#define _FAULTWRAP_H_
#include <stdio.h>
enum { VF_MALLOC, VF_REALLOC, VF_FOPEN, VF_FREAD, VF_FSEEK, VF_FTELL, VF_FGETS, VF_READ, VF_WRITE, VF_SELECT,
       VF_FREE, VF_FCLOSE, VF_OPS };
enum { VF_FAIL, VF_SHORT, VF_EINTR };
void vf_setFaults(const char* p);
void vf_enable(int isEnabled);     /* 0: calls of the driver itself are neither counted, failed nor tracked */
void vf_resetCounts(void);
unsigned long vf_live(void);
int vf_openFiles(void);
int vf_badCloses(void);
unsigned long vf_count(int op);
unsigned long vf_fired(void);
void vf_report(FILE* f);
#endif
