/* Stand-in for mri/include/try_catch.h (the mri submodule is empty in this sandbox).
   Exception codes as found in the debug information of bins/lin64/CrashDebug. */
#ifndef _MRI_TRY_CATCH_H_
#define _MRI_TRY_CATCH_H_

#define noException                         0
#define bufferOverrunException              1
#define invalidHexDigitException            2
#define invalidValueException               3
#define invalidArgumentException            4
#define timeoutException                    5
#define invalidIndexException               6
#define notFoundException                   7
#define exceededHardwareResourcesException  8
#define invalidDecDigitException            9
#define memFaultException                   10
#define mriMaxException                     15

#ifndef MRI_SKIP_TRY_CATCH_MACRO_DEFINES
extern int __mriExceptionCode;
#define __throws
#undef  __try
#undef  __catch
#define __try          do { clearExceptionCode();
#define __throwing_func(X) X; if (__mriExceptionCode) break;
#define __catch        } while (0); if (__mriExceptionCode)
#define __rethrow      return
#define __rethrow_and_return(RETURN) return RETURN
#define __throw(EXCEPTION) { setExceptionCode(EXCEPTION); return; }
#define __throw_and_return(EXCEPTION, RETURN) return (setExceptionCode(EXCEPTION), (RETURN))
static inline int getExceptionCode(void) { return __mriExceptionCode; }
static inline void setExceptionCode(int code) { __mriExceptionCode = code > __mriExceptionCode ? code : __mriExceptionCode; }
static inline void clearExceptionCode(void) { __mriExceptionCode = noException; }
#endif
#endif
