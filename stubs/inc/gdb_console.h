#ifndef _GDB_CONSOLE_H_
#define _GDB_CONSOLE_H_
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void __mriGdbConsole_WriteString(const char* pString);
void __mriGdbConsole_WriteHexValue(uint32_t Value);
#ifdef __cplusplus
}
#endif
#define WriteStringToGdbConsole   __mriGdbConsole_WriteString
#define WriteHexValueToGdbConsole __mriGdbConsole_WriteHexValue
#endif
