/* Loads and unloads crash dumps again and again in one process through the public API, with an in-memory GDB connection. */
#include "script.h"
#include <unistd.h>
#include <common.h>
#include <CrashDebugCommandLine.h>
#include <mriPlatform.h>
#include <platforms.h>
#include <semihost.h>

static CrashDebugCommandLine g_cl;
static const char* g_args[256];
static int g_argCount;

/* A connection whose input is a byte string; the end of input is an error, as it is for the real console. */
static unsigned char* g_in;
static size_t g_inSize, g_inPos;
static unsigned char* g_out;
static size_t g_outSize, g_outAlloc;
static int hasReceiveData(IComm* p) { return 0; }
static int receiveChar(IComm* p)
{
    if (g_inPos >= g_inSize) __throw(fileException);
    return (char)g_in[g_inPos++];
}
static void sendChar(IComm* p, int c)
{
    if (g_outSize == g_outAlloc)
    {
        g_outAlloc = g_outAlloc * 2 + 100000;
        OWN(g_out = (unsigned char*)realloc(g_out, g_outAlloc));
    }
    g_out[g_outSize++] = (unsigned char)c;
}
static int shouldStopRun(IComm* p) { return 0; }
static int isGdbConnected(IComm* p) { return 1; }
static ICommVTable g_vtable = {hasReceiveData, receiveChar, sendChar, shouldStopRun, isGdbConnected};
static IComm g_comm = {&g_vtable};

/* Calls of the target interface, in whatever order the script makes them. */
static void platform(void)
{
    const char* w = word(1);
    const void* a = (const void*)(uintptr_t)num(2);
    size_t n;

    if      (!strcmp(w, "init")) mriPlatform_Init(&g_cl.context, g_cl.pMemory);
    else if (!strcmp(w, "r1")) fprintf(stdout, "%x", Platform_MemRead8(a));
    else if (!strcmp(w, "r2")) fprintf(stdout, "%x", Platform_MemRead16(a));
    else if (!strcmp(w, "r4")) fprintf(stdout, "%x", Platform_MemRead32(a));
    else if (!strcmp(w, "w1")) Platform_MemWrite8((void*)a, num(3));
    else if (!strcmp(w, "w2")) Platform_MemWrite16((void*)a, num(3));
    else if (!strcmp(w, "w4")) Platform_MemWrite32((void*)a, num(3));
    else if (!strcmp(w, "fault")) fprintf(stdout, "%d", Platform_WasMemoryFaultEncountered() != 0);
    else if (!strcmp(w, "ctx") || !strcmp(w, "t"))
    {
        Buffer b;
        char* p = NULL;
        OWN(p = (char*)malloc(num(2)));             /* exact size: writing past the end is caught */
        Buffer_Init(&b, p, num(2));
        if (*w == 'c') Platform_CopyContextToBuffer(&b);
        else           Platform_WriteTResponseRegistersToBuffer(&b);
        fprintf(stdout, "%d ", Buffer_OverrunDetected(&b) != 0);
        if (!Buffer_OverrunDetected(&b)) fwrite(p, 1, num(2) - Buffer_BytesLeft(&b), stdout);
        clearExceptionCode();
        OWN(free(p));
    }
    else if (!strcmp(w, "set"))
    {
        Buffer b;
        unsigned char* p = unhex(word(2), &n);
        Buffer_Init(&b, (char*)p, n);
        Platform_CopyContextFromBuffer(&b);
        fprintf(stdout, "%d %zx", Buffer_OverrunDetected(&b) != 0, Buffer_BytesLeft(&b));
        clearExceptionCode();
        OWN(free(p));
    }
    else if (!strcmp(w, "cause")) fprintf(stdout, "%x", Platform_DetermineCauseOfException());
    else if (!strcmp(w, "why"))
    {
        static unsigned char acks[4096];
        memset(acks, '+', sizeof(acks));
        g_in = acks;
        g_inSize = sizeof(acks);
        g_inPos = g_outSize = 0;
        Platform_DisplayFaultCauseToGdbConsole();
        g_inPos = g_inSize = 0;
        hexOut(g_out, g_outSize);
    }
    else if (!strcmp(w, "buffer"))
    {
        memset(Platform_GetPacketBuffer(), num(2), Platform_GetPacketBufferSize());
        fprintf(stdout, "%x", Platform_GetPacketBufferSize());
    }
    else if (!strcmp(w, "break"))
    {
        PlatformWatchpointType t = (PlatformWatchpointType)(num(4) % 3);
        switch (num(4) / 3 % 4)
        {
        case 0: Platform_SetHardwareBreakpoint(num(2), num(3)); break;
        case 1: Platform_ClearHardwareBreakpoint(num(2), num(3)); break;
        case 2: Platform_SetHardwareWatchpoint(num(2), num(3), t); break;
        default: Platform_ClearHardwareWatchpoint(num(2), num(3), t); break;
        }
    }
    else if (!strcmp(w, "semihost"))
    {
        int made = Semihost_IsDebuggeeMakingSemihostCall();
        fprintf(stdout, "%d %d", made != 0, Semihost_HandleSemihostRequest() != 0);
        PlatformSemihostParameters s = Platform_GetSemihostCallParameters();
        fprintf(stdout, " %x %x %x %x", s.parameter1, s.parameter2, s.parameter3, s.parameter4);
        Platform_SetSemihostCallReturnAndErrnoValues((int)num(2), (int)num(3));
    }
    else if (!strcmp(w, "resume"))      /* what a monitor does about the instruction at pc before it lets the target run */
    {
        if (!Platform_WasProgramCounterModifiedByUser() || num(3))
        {
            if (Platform_TypeOfCurrentInstruction() != MRI_PLATFORM_INSTRUCTION_OTHER || num(3))
                Platform_AdvanceProgramCounterToNextInstruction();
        }
        if (num(4)) Platform_SetProgramCounter(num(2));
        fprintf(stdout, "%d", (int)Platform_TypeOfCurrentInstruction());
    }
    else if (!strcmp(w, "step"))
    {
        if (num(2)) Platform_EnableSingleStep();
        else        Platform_DisableSingleStep();
        fprintf(stdout, "%d", Platform_IsSingleStepping() != 0);
    }
    else if (!strcmp(w, "debugger"))
    {
        Platform_EnteringDebuggerHook();
        Platform_EnteringDebugger();
        fprintf(stdout, "%d %d", Platform_CommCausedInterrupt() != 0, Platform_CommSharingWithApplication() != 0);
        Platform_CommClearInterrupt();
        Platform_CommWaitForReceiveDataToStop();
        Platform_CommPrepareToWaitForGdbConnection();
        Platform_LeavingDebugger();
        Platform_LeavingDebuggerHook();
    }
    else { fprintf(stderr, "lifedrv: bad call %s\n", w); exit(97); }
    clearExceptionCode();       /* a caught memory fault leaves its code behind */
}

static void op(void)
{
    size_t n;
    int i;
    if (is("init"))
    {
        for (i = 0 ; i < g_argCount ; i++) OWN(free((void*)g_args[i]));
        g_argCount = 0;
        for (i = 1 ; i < g_words ; i++)
        {
            unsigned char* p = unhex(word(i), &n);
            char* s = NULL;
            OWN(s = (char*)malloc(n + 1));
            memcpy(s, p, n);
            s[n] = 0;
            OWN(free(p));
            g_args[g_argCount++] = s;
        }
        memset(&g_cl, 0xA5, sizeof(g_cl));       /* as main()'s local variable: not initialized */
        CrashDebugCommandLine_Init(&g_cl, g_argCount, g_args);
        fprintf(stdout, "%d", g_cl.pMemory != NULL);
    }
    else if (is("uninit")) CrashDebugCommandLine_Uninit(&g_cl);
    else if (is("memory")) fprintf(stdout, "%d", g_cl.pMemory != NULL);
    else if (is("regs"))
    {
        fprintf(stdout, "%x %x ", g_cl.context.flags, g_cl.context.exceptionPSR);
        hexOut(g_cl.context.R, sizeof(g_cl.context.R));
        fprintf(stdout, " ");
        hexOut(g_cl.context.FPR, sizeof(g_cl.context.FPR));
    }
    else if (is("read"))
    {
        uint32_t a = num(1), k;
        for (k = 0 ; k < num(2) ; k++) { uint8_t v = IMemory_Read8(g_cl.pMemory, a + k); fprintf(stdout, "%02x", v); }
    }
    else if (is("write")) IMemory_Write8(g_cl.pMemory, num(1), num(2));
    else if (is("xml"))              /* what GDB would be told about the registers and the memory */
    {
        mriPlatform_Init(&g_cl.context, g_cl.pMemory);
        if (!strcmp(word(1), "map")) hexOut(Platform_GetDeviceMemoryMapXml(), Platform_GetDeviceMemoryMapXmlSize());
        else            hexOut(Platform_GetTargetXml(), Platform_GetTargetXmlSize());
    }
    else if (is("p")) platform();
    else if (is("talk"))
    {
        volatile int code = 0;
        g_in = unhex(word(1), &n);
        g_inSize = n;
        g_inPos = g_outSize = 0;
        __try
        {
            mriPlatform_Init(&g_cl.context, g_cl.pMemory);
            mriPlatform_Run(&g_comm);
        }
        __catch
        {
            code = getExceptionCode();
            clearExceptionCode();
        }
        OWN(free(g_in));
        fprintf(stdout, "%x %zx ", code - mriMaxException, g_inPos);
        hexOut(g_out, g_outSize);
    }
    else if (is("wait")) mriPlatform_setWaitForGdbConnect(num(1));
    else if (is("fault")) { vf_resetCounts(); vf_setFaults(g_words > 1 ? word(1) : ""); }
    else if (is("fired")) { fprintf(stdout, "%lx", vf_fired()); vf_setFaults(""); }
    else if (is("live")) fprintf(stdout, "%lx %x %x", vf_live(), vf_openFiles(), vf_badCloses());
    else { fprintf(stderr, "lifedrv: bad operation %s\n", word(0)); exit(97); }
}

int main(void)
{
    while (nextLine(stdin))
    {
        if (!g_words) continue;
        RUN_LINE(stdout);
    }
    while (g_argCount) free((void*)g_args[--g_argCount]);
    free(g_out);
    free(g_line);
    return 0;
}
