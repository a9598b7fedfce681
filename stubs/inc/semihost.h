#ifndef _SEMIHOST_H_
#define _SEMIHOST_H_
#ifdef __cplusplus
extern "C" {
#endif
int __mriSemihost_IsDebuggeeMakingSemihostCall(void);
int __mriSemihost_HandleSemihostRequest(void);
#ifdef __cplusplus
}
#endif
#define Semihost_IsDebuggeeMakingSemihostCall __mriSemihost_IsDebuggeeMakingSemihostCall
#define Semihost_HandleSemihostRequest __mriSemihost_HandleSemihostRequest
#endif
