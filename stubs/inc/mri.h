#ifndef _MRI_H_
#define _MRI_H_
#ifdef __cplusplus
extern "C" {
#endif
void __mriInit(const char* pDebuggerParameters);
void __mriDebugException(void);
#ifdef __cplusplus
}
#endif
#endif
