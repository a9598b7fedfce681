/* Stand-in for mri/core/platforms.h: the interface libCrashDebug/src/mriPlatform.c implements. */
#ifndef _PLATFORMS_H_
#define _PLATFORMS_H_
#include <stdint.h>
#include "token.h"
#include "buffer.h"
#ifndef __throws
#define __throws
#endif
typedef enum { MRI_PLATFORM_INSTRUCTION_OTHER = 0, MRI_PLATFORM_INSTRUCTION_MBED_SEMIHOST_CALL,
               MRI_PLATFORM_INSTRUCTION_NEWLIB_SEMIHOST_CALL, MRI_PLATFORM_INSTRUCTION_HARDCODED_BREAKPOINT } PlatformInstructionType;
typedef enum { MRI_PLATFORM_WRITE_WATCHPOINT = 0, MRI_PLATFORM_READ_WATCHPOINT, MRI_PLATFORM_READWRITE_WATCHPOINT } PlatformWatchpointType;
typedef struct { uint32_t parameter1, parameter2, parameter3, parameter4; } PlatformSemihostParameters;

#define Platform_Init __mriPlatform_Init
#define Platform_GetPacketBuffer __mriPlatform_GetPacketBuffer
#define Platform_GetPacketBufferSize __mriPlatform_GetPacketBufferSize
#define Platform_EnteringDebuggerHook __mriPlatform_EnteringDebuggerHook
#define Platform_EnteringDebugger __mriPlatform_EnteringDebugger
#define Platform_LeavingDebugger __mriPlatform_LeavingDebugger
#define Platform_LeavingDebuggerHook __mriPlatform_LeavingDebuggerHook
#define Platform_MemRead32 __mriPlatform_MemRead32
#define Platform_MemRead16 __mriPlatform_MemRead16
#define Platform_MemRead8 __mriPlatform_MemRead8
#define Platform_MemWrite32 __mriPlatform_MemWrite32
#define Platform_MemWrite16 __mriPlatform_MemWrite16
#define Platform_MemWrite8 __mriPlatform_MemWrite8
#define Platform_CommHasReceiveData __mriPlatform_CommHasReceiveData
#define Platform_CommReceiveChar __mriPlatform_CommReceiveChar
#define Platform_CommSendChar __mriPlatform_CommSendChar
#define Platform_CommCausedInterrupt __mriPlatform_CommCausedInterrupt
#define Platform_CommClearInterrupt __mriPlatform_CommClearInterrupt
#define Platform_CommShouldWaitForGdbConnect __mriPlatform_CommShouldWaitForGdbConnect
#define Platform_CommSharingWithApplication __mriPlatform_CommSharingWithApplication
#define Platform_CommPrepareToWaitForGdbConnection __mriPlatform_CommPrepareToWaitForGdbConnection
#define Platform_CommIsWaitingForGdbToConnect __mriPlatform_CommIsWaitingForGdbToConnect
#define Platform_CommWaitForReceiveDataToStop __mriPlatform_CommWaitForReceiveDataToStop
#define Platform_DetermineCauseOfException __mriPlatform_DetermineCauseOfException
#define Platform_DisplayFaultCauseToGdbConsole __mriPlatform_DisplayFaultCauseToGdbConsole
#define Platform_EnableSingleStep __mriPlatform_EnableSingleStep
#define Platform_DisableSingleStep __mriPlatform_DisableSingleStep
#define Platform_IsSingleStepping __mriPlatform_IsSingleStepping
#define Platform_GetProgramCounter __mriPlatform_GetProgramCounter
#define Platform_SetProgramCounter __mriPlatform_SetProgramCounter
#define Platform_AdvanceProgramCounterToNextInstruction __mriPlatform_AdvanceProgramCounterToNextInstruction
#define Platform_WasProgramCounterModifiedByUser __mriPlatform_WasProgramCounterModifiedByUser
#define Platform_WasMemoryFaultEncountered __mriPlatform_WasMemoryFaultEncountered
#define Platform_WriteTResponseRegistersToBuffer __mriPlatform_WriteTResponseRegistersToBuffer
#define Platform_CopyContextToBuffer __mriPlatform_CopyContextToBuffer
#define Platform_CopyContextFromBuffer __mriPlatform_CopyContextFromBuffer
#define Platform_GetDeviceMemoryMapXmlSize __mriPlatform_GetDeviceMemoryMapXmlSize
#define Platform_GetDeviceMemoryMapXml __mriPlatform_GetDeviceMemoryMapXml
#define Platform_GetTargetXmlSize __mriPlatform_GetTargetXmlSize
#define Platform_GetTargetXml __mriPlatform_GetTargetXml
#define Platform_SetHardwareBreakpoint __mriPlatform_SetHardwareBreakpoint
#define Platform_ClearHardwareBreakpoint __mriPlatform_ClearHardwareBreakpoint
#define Platform_SetHardwareWatchpoint __mriPlatform_SetHardwareWatchpoint
#define Platform_ClearHardwareWatchpoint __mriPlatform_ClearHardwareWatchpoint
#define Platform_TypeOfCurrentInstruction __mriPlatform_TypeOfCurrentInstruction
#define Platform_GetSemihostCallParameters __mriPlatform_GetSemihostCallParameters
#define Platform_SetSemihostCallReturnAndErrnoValues __mriPlatform_SetSemihostCallReturnAndErrnoValues

#ifdef __cplusplus
extern "C" {
#endif
void     Platform_Init(Token*);
char*    Platform_GetPacketBuffer(void);
uint32_t Platform_GetPacketBufferSize(void);
void     Platform_EnteringDebuggerHook(void);
void     Platform_EnteringDebugger(void);
void     Platform_LeavingDebugger(void);
void     Platform_LeavingDebuggerHook(void);
uint32_t Platform_MemRead32(const void*);
uint16_t Platform_MemRead16(const void*);
uint8_t  Platform_MemRead8(const void*);
void     Platform_MemWrite32(void*, uint32_t);
void     Platform_MemWrite16(void*, uint16_t);
void     Platform_MemWrite8(void*, uint8_t);
uint32_t Platform_CommHasReceiveData(void);
int      Platform_CommReceiveChar(void);
void     Platform_CommSendChar(int);
int      Platform_CommCausedInterrupt(void);
void     Platform_CommClearInterrupt(void);
int      Platform_CommShouldWaitForGdbConnect(void);
int      Platform_CommSharingWithApplication(void);
void     Platform_CommPrepareToWaitForGdbConnection(void);
int      Platform_CommIsWaitingForGdbToConnect(void);
void     Platform_CommWaitForReceiveDataToStop(void);
uint8_t  Platform_DetermineCauseOfException(void);
void     Platform_DisplayFaultCauseToGdbConsole(void);
void     Platform_EnableSingleStep(void);
void     Platform_DisableSingleStep(void);
int      Platform_IsSingleStepping(void);
void     Platform_SetProgramCounter(uint32_t);
void     Platform_AdvanceProgramCounterToNextInstruction(void);
int      Platform_WasProgramCounterModifiedByUser(void);
int      Platform_WasMemoryFaultEncountered(void);
void     Platform_WriteTResponseRegistersToBuffer(Buffer*);
void     Platform_CopyContextToBuffer(Buffer*);
void     Platform_CopyContextFromBuffer(Buffer*);
uint32_t Platform_GetDeviceMemoryMapXmlSize(void);
const char* Platform_GetDeviceMemoryMapXml(void);
uint32_t Platform_GetTargetXmlSize(void);
const char* Platform_GetTargetXml(void);
void     Platform_SetHardwareBreakpoint(uint32_t, uint32_t);
void     Platform_ClearHardwareBreakpoint(uint32_t, uint32_t);
void     Platform_SetHardwareWatchpoint(uint32_t, uint32_t, PlatformWatchpointType);
void     Platform_ClearHardwareWatchpoint(uint32_t, uint32_t, PlatformWatchpointType);
PlatformInstructionType Platform_TypeOfCurrentInstruction(void);
PlatformSemihostParameters Platform_GetSemihostCallParameters(void);
void     Platform_SetSemihostCallReturnAndErrnoValues(int, int);
#ifdef __cplusplus
}
#endif
#endif
