/* Stand-in for the mri debug-monitor core (the mri submodule is empty in this sandbox): the GDB remote serial
   protocol state machine that libCrashDebug/src/mriPlatform.c plugs into.  Written to behave like the core linked
   into bins/lin64/CrashDebug and calibrated against that binary (tools/calibrate.py). It is part of the test
   bench, not of the code under test. */
#include <string.h>
#include <stdlib.h>
#include "mri/include/try_catch.h"
#include "platforms.h"
#include "packet.h"
#include "gdb_console.h"
#include "semihost.h"
#include "mri.h"

int __mriExceptionCode;

/* ---- Buffer ------------------------------------------------------------------------------------------------- */
void Buffer_Init(Buffer* p, char* pBuf, size_t size) { p->pStart = pBuf; p->pEnd = pBuf + size; p->pCurrent = pBuf; }
void Buffer_Reset(Buffer* p) { p->pCurrent = p->pStart; }
void Buffer_SetEndOfBuffer(Buffer* p) { p->pEnd = p->pCurrent; }
size_t Buffer_BytesLeft(Buffer* p) { return p->pCurrent > p->pEnd ? 0 : (size_t)(p->pEnd - p->pCurrent); }
size_t Buffer_GetLength(Buffer* p) { return p->pStart > p->pEnd ? 0 : (size_t)(p->pEnd - p->pStart); }
char* Buffer_GetArray(Buffer* p) { return p->pStart; }
int Buffer_OverrunDetected(Buffer* p) { return p->pCurrent > p->pEnd; }
static int is_overrun(Buffer* p, size_t n)
{
    if (Buffer_BytesLeft(p) >= n && !Buffer_OverrunDetected(p))
        return 0;
    p->pCurrent = p->pEnd + 1;
    setExceptionCode(bufferOverrunException);
    return 1;
}
void Buffer_WriteChar(Buffer* p, char c)
{
    clearExceptionCode();
    if (is_overrun(p, 1)) return;
    *p->pCurrent++ = c;
}
char Buffer_ReadChar(Buffer* p)
{
    clearExceptionCode();
    if (is_overrun(p, 1)) return 0;
    return *p->pCurrent++;
}
static const char g_hex[] = "0123456789abcdef";
void Buffer_WriteByteAsHex(Buffer* p, uint8_t b)
{
    clearExceptionCode();
    if (is_overrun(p, 2)) return;
    *p->pCurrent++ = g_hex[b >> 4];
    *p->pCurrent++ = g_hex[b & 15];
}
static int nibble(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
uint8_t Buffer_ReadByteAsHex(Buffer* p)
{
    int hi, lo;
    clearExceptionCode();
    if (is_overrun(p, 2)) return 0;
    hi = nibble(p->pCurrent[0]);
    lo = nibble(p->pCurrent[1]);
    if (hi < 0 || lo < 0)
    {
        setExceptionCode(invalidHexDigitException);
        return 0;
    }
    p->pCurrent += 2;
    return (uint8_t)(hi << 4 | lo);
}
void Buffer_WriteSizedString(Buffer* p, const char* s, size_t n) { while (n--) Buffer_WriteChar(p, *s++); }
void Buffer_WriteString(Buffer* p, const char* s) { Buffer_WriteSizedString(p, s, strlen(s)); }
uint32_t Buffer_ReadUIntegerAsHex(Buffer* p)
{
    uint32_t value = 0;
    int digits = 0;
    clearExceptionCode();
    while (Buffer_BytesLeft(p) > 0)
    {
        int n = nibble(*p->pCurrent);
        if (n < 0) break;
        value = (value << 4) + (uint32_t)n;
        digits++;
        p->pCurrent++;
    }
    if (Buffer_OverrunDetected(p)) p->pCurrent = p->pEnd;
    if (!digits)
    {
        setExceptionCode(invalidValueException);
        return 0;
    }
    return value;
}
void Buffer_WriteUIntegerAsHex(Buffer* p, uint32_t v)
{
    int started = 0, shift;
    clearExceptionCode();
    if (v == 0)
    {
        Buffer_WriteByteAsHex(p, 0);
        return;
    }
    for (shift = 24 ; shift >= 0 ; shift -= 8)
    {
        uint8_t b = (uint8_t)(v >> shift);
        if (b) started = 1;
        if (started) Buffer_WriteByteAsHex(p, b);
    }
}
int32_t Buffer_ReadIntegerAsHex(Buffer* p)
{
    int neg = Buffer_IsNextCharEqualTo(p, '-');
    uint32_t v = Buffer_ReadUIntegerAsHex(p);
    return (int32_t)(neg ? 0u - v : v);
}
void Buffer_WriteIntegerAsHex(Buffer* p, int32_t v)
{
    clearExceptionCode();
    if (v < 0)
    {
        Buffer_WriteChar(p, '-');
        Buffer_WriteUIntegerAsHex(p, 0u - (uint32_t)v);
    }
    else
        Buffer_WriteUIntegerAsHex(p, (uint32_t)v);
}
int Buffer_IsNextCharEqualTo(Buffer* p, char c)
{
    clearExceptionCode();
    if (Buffer_BytesLeft(p) == 0 || *p->pCurrent != c) return 0;
    p->pCurrent++;
    return 1;
}
int Buffer_MatchesString(Buffer* p, const char* s, size_t n)
{
    size_t left = Buffer_BytesLeft(p);
    clearExceptionCode();
    if (n > left)
    {
        setExceptionCode(bufferOverrunException);
        return 0;
    }
    if (strncmp(p->pCurrent, s, n) != 0) return 0;
    if (n != left && p->pCurrent[n] != ':') return 0;
    p->pCurrent += n;
    return 1;
}

/* ---- Packet ------------------------------------------------------------------------------------------------- */
void Packet_GetFromGDB(Packet* k, Buffer* p)
{
    memset(k, 0, sizeof(*k));
    k->pBuffer = p;
    for (;;)
    {
        int hi, lo;
        char c0, c1;

        while (k->lastChar != '$') k->lastChar = (char)Platform_CommReceiveChar();
        Buffer_Reset(p);
        k->calculatedChecksum = 0;
        k->lastChar = (char)Platform_CommReceiveChar();
        while (Buffer_BytesLeft(p) > 0 && k->lastChar != '$' && k->lastChar != '#')
        {
            k->calculatedChecksum += (unsigned char)k->lastChar;
            Buffer_WriteChar(p, k->lastChar);
            k->lastChar = (char)Platform_CommReceiveChar();
        }
        if (k->lastChar != '#') continue;
        c0 = k->lastChar = (char)Platform_CommReceiveChar();
        c1 = k->lastChar = (char)Platform_CommReceiveChar();
        hi = nibble(c0);
        lo = nibble(c1);
        k->expectedChecksum = (hi < 0 || lo < 0) ? (unsigned char)~k->calculatedChecksum : (unsigned char)(hi << 4 | lo);
        if (Platform_CommHasReceiveData()) continue;
        if (k->expectedChecksum != k->calculatedChecksum)
        {
            Platform_CommSendChar('-');
            continue;
        }
        Platform_CommSendChar('+');
        Buffer_SetEndOfBuffer(p);
        Buffer_Reset(p);
        return;
    }
}
void Packet_SendToGDB(Packet* k, Buffer* p)
{
    memset(k, 0, sizeof(*k));
    k->pBuffer = p;
    do
    {
        Buffer_Reset(p);
        k->calculatedChecksum = 0;
        Platform_CommSendChar('$');
        while (Buffer_BytesLeft(p) > 0)
        {
            char c = Buffer_ReadChar(p);
            Platform_CommSendChar(c);
            k->calculatedChecksum += (unsigned char)c;
        }
        Platform_CommSendChar('#');
        Platform_CommSendChar(g_hex[k->calculatedChecksum >> 4]);
        Platform_CommSendChar(g_hex[k->calculatedChecksum & 15]);
        do
            k->lastChar = (char)Platform_CommReceiveChar();
        while (k->lastChar == 3);
    } while (k->lastChar != '+' && k->lastChar != '$');
}

/* ---- Core --------------------------------------------------------------------------------------------------- */
#define FLAG_INIT 1
#define FLAG_FIRST 2
#define RESUME_PROGRAM 1
#define RETURN_IMMEDIATELY 2
static struct { Packet packet; Buffer buffer; uint32_t flags; uint8_t signalValue; } g;

static void InitBuffer(void) { Buffer_Init(&g.buffer, Platform_GetPacketBuffer(), Platform_GetPacketBufferSize()); }
static void SendPacketToGdb(void)
{
    if (Buffer_OverrunDetected(&g.buffer))
    {
        InitBuffer();
        Buffer_WriteString(&g.buffer, "E04");
    }
    Buffer_SetEndOfBuffer(&g.buffer);
    Packet_SendToGDB(&g.packet, &g.buffer);
}
static uint32_t reply(const char* s)
{
    InitBuffer();
    Buffer_WriteString(&g.buffer, s);
    return 0;
}

void WriteStringToGdbConsole(const char* s)
{
    if (Platform_CommSharingWithApplication() && (g.flags & FLAG_FIRST))
    {
        while (*s) Platform_CommSendChar(*s++);
        return;
    }
    InitBuffer();
    Buffer_WriteChar(&g.buffer, 'O');
    while (*s) Buffer_WriteByteAsHex(&g.buffer, (uint8_t)*s++);
    if (!Buffer_OverrunDetected(&g.buffer)) SendPacketToGdb();
}
void WriteHexValueToGdbConsole(uint32_t v)
{
    Buffer b;
    char text[11];
    Buffer_Init(&b, text, sizeof(text));
    Buffer_WriteString(&b, "0x");
    Buffer_WriteUIntegerAsHex(&b, v);
    Buffer_WriteChar(&b, '\0');
    WriteStringToGdbConsole(text);
}

/* Like mri on a 64-bit host: the pointer's upper half is not part of the simulated address. */
static void* toPointer(uint32_t a)
{
    uintptr_t local = (uintptr_t)&a;
    return (void*)((local & ~(uintptr_t)0xFFFFFFFFu) | a);
}
static int readAddressAndLength(uint32_t* pAddress, uint32_t* pLength)
{
    Buffer* p = &g.buffer;
    *pAddress = Buffer_ReadUIntegerAsHex(p);
    if (__mriExceptionCode) return 0;
    if (!Buffer_IsNextCharEqualTo(p, ',')) return 0;
    *pLength = Buffer_ReadUIntegerAsHex(p);
    return __mriExceptionCode == 0;
}

static uint32_t cmdStopReason(void)
{
    Buffer* p = &g.buffer;
    InitBuffer();
    Buffer_WriteChar(p, 'T');
    Buffer_WriteByteAsHex(p, g.signalValue);
    Platform_WriteTResponseRegistersToBuffer(p);
    SendPacketToGdb();
    return RETURN_IMMEDIATELY;
}
static uint32_t cmdReadRegisters(void)
{
    InitBuffer();
    Platform_CopyContextToBuffer(&g.buffer);
    return 0;
}
static uint32_t cmdWriteRegisters(void)
{
    Platform_CopyContextFromBuffer(&g.buffer);
    return reply(Buffer_OverrunDetected(&g.buffer) ? "E04" : "OK");
}
static uint32_t readMemory(uint32_t address, uint32_t length)
{
    Buffer* p = &g.buffer;
    uint8_t* pv = toPointer(address);
    uint32_t i;
    if ((length == 2 && !(address & 1)) || (length == 4 && !(address & 3)))
    {
        uint32_t v = length == 2 ? Platform_MemRead16(pv) : Platform_MemRead32(pv);
        if (Platform_WasMemoryFaultEncountered()) return 0;
        for (i = 0 ; i < length ; i++) Buffer_WriteByteAsHex(p, (uint8_t)(v >> (8 * i)));
        return length;
    }
    for (i = 0 ; i < length ; i++)
    {
        uint8_t b = Platform_MemRead8((void*)((uintptr_t)pv + i));
        if (Platform_WasMemoryFaultEncountered()) break;
        Buffer_WriteByteAsHex(p, b);
        if (Buffer_OverrunDetected(p)) break;
    }
    return i;
}
static uint32_t cmdReadMemory(void)
{
    uint32_t address, length;
    if (!readAddressAndLength(&address, &length)) return reply("E01");
    InitBuffer();
    if (readMemory(address, length) == 0 && !Buffer_OverrunDetected(&g.buffer)) return reply("E03");
    return 0;
}
static int nextDataByte(int binary, uint8_t* pByte)
{
    Buffer* p = &g.buffer;
    if (!binary)
    {
        *pByte = Buffer_ReadByteAsHex(p);
        return __mriExceptionCode == 0;
    }
    *pByte = (uint8_t)Buffer_ReadChar(p);
    if (__mriExceptionCode) return 0;
    if (*pByte == '}')
    {
        *pByte = (uint8_t)Buffer_ReadChar(p) ^ 0x20;
        if (__mriExceptionCode) return 0;
    }
    return 1;
}
static int writeMemory(uint32_t address, uint32_t length, int binary)
{
    uint8_t* pv = toPointer(address);
    uint8_t b[4];
    uint32_t i;
    if ((length == 2 && !(address & 1)) || (length == 4 && !(address & 3)))
    {
        for (i = 0 ; i < length ; i++)
            if (!nextDataByte(binary, &b[i])) return 0;
        if (length == 2)
            Platform_MemWrite16(pv, (uint16_t)(b[0] | b[1] << 8));
        else
            Platform_MemWrite32(pv, (uint32_t)b[0] | (uint32_t)b[1] << 8 | (uint32_t)b[2] << 16 | (uint32_t)b[3] << 24);
        return !Platform_WasMemoryFaultEncountered();
    }
    for (i = 0 ; i < length ; i++)
    {
        if (!nextDataByte(binary, b)) return 0;
        Platform_MemWrite8((void*)((uintptr_t)pv + i), b[0]);
        if (Platform_WasMemoryFaultEncountered()) return 0;
    }
    return 1;
}
static uint32_t doWriteMemory(int binary)
{
    uint32_t address, length;
    if (!readAddressAndLength(&address, &length) || !Buffer_IsNextCharEqualTo(&g.buffer, ':')) return reply("E01");
    if (writeMemory(address, length, binary)) return reply("OK");
    return reply(Buffer_OverrunDetected(&g.buffer) ? "E04" : "E03");
}
static uint32_t cmdWriteMemory(void) { return doWriteMemory(0); }
static uint32_t cmdWriteMemoryBinary(void) { return doWriteMemory(1); }
static uint32_t cmdContinue(void)
{
    uint32_t newPC;
    uint32_t result = RESUME_PROGRAM | RETURN_IMMEDIATELY;
    if (!Platform_WasProgramCounterModifiedByUser() &&
        Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_HARDCODED_BREAKPOINT)
        Platform_AdvanceProgramCounterToNextInstruction();
    newPC = Buffer_ReadUIntegerAsHex(&g.buffer);
    if (!__mriExceptionCode) Platform_SetProgramCounter(newPC);
    return result;
}
static uint32_t cmdContinueWithSignal(void)
{
    Buffer* p = &g.buffer;
    if (!Platform_WasProgramCounterModifiedByUser() &&
        Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_HARDCODED_BREAKPOINT)
        Platform_AdvanceProgramCounterToNextInstruction();
    Buffer_ReadUIntegerAsHex(p);
    if (__mriExceptionCode) return reply("E01");
    if (Buffer_BytesLeft(p) && Buffer_IsNextCharEqualTo(p, ';'))
    {
        uint32_t newPC = Buffer_ReadUIntegerAsHex(p);
        if (__mriExceptionCode) return reply("E01");
        Platform_SetProgramCounter(newPC);
    }
    return RESUME_PROGRAM | RETURN_IMMEDIATELY;
}
static uint32_t cmdStep(void)
{
    uint32_t r = cmdContinue();
    Platform_EnableSingleStep();
    return r;
}
static uint32_t cmdStepWithSignal(void)
{
    uint32_t r = cmdContinueWithSignal();
    if (r) Platform_EnableSingleStep();
    return r;
}
static uint32_t xfer(const char* pObject, uint32_t size, uint32_t offset, uint32_t length)
{
    Buffer* p = &g.buffer;
    uint32_t left = size > offset ? size - offset : 0;
    uint32_t room;
    InitBuffer();
    room = (uint32_t)Buffer_BytesLeft(p);
    if (length > room) length = room;
    if (left >= length && left != 0)
    {
        Buffer_WriteChar(p, 'm');
        Buffer_WriteSizedString(p, pObject + offset, length);
    }
    else
    {
        Buffer_WriteChar(p, 'l');
        if (left) Buffer_WriteSizedString(p, pObject + offset, left);
    }
    return 0;
}
static uint32_t cmdQuery(void)
{
    Buffer* p = &g.buffer;
    int isMap, isTarget;
    uint32_t offset, length;
    if (Buffer_MatchesString(p, "Supported", 9))
    {
        InitBuffer();
        Buffer_WriteString(p, "qXfer:memory-map:read+;qXfer:features:read+;PacketSize=");
        Buffer_WriteUIntegerAsHex(p, Platform_GetPacketBufferSize());
        return 0;
    }
    if (!Buffer_MatchesString(p, "Xfer", 4)) return reply("");
    if (!Buffer_IsNextCharEqualTo(p, ':')) return reply("E01");
    isMap = Buffer_MatchesString(p, "memory-map", 10);
    if (!isMap && !Buffer_MatchesString(p, "features", 8)) return reply("");
    if (!Buffer_IsNextCharEqualTo(p, ':') || !Buffer_MatchesString(p, "read", 4) || !Buffer_IsNextCharEqualTo(p, ':'))
        return reply("E01");
    isTarget = Buffer_MatchesString(p, "target.xml", 10);
    if (!Buffer_IsNextCharEqualTo(p, ':') || !readAddressAndLength(&offset, &length)) return reply("E01");
    if (isMap)
    {
        const char* pXml;
        if (isTarget) return reply("E01");
        pXml = Platform_GetDeviceMemoryMapXml();
        return xfer(pXml, Platform_GetDeviceMemoryMapXmlSize(), offset, length);
    }
    if (!isTarget) return reply("E01");
    return xfer(Platform_GetTargetXml(), Platform_GetTargetXmlSize(), offset, length);
}
static uint32_t breakWatch(int set)
{
    Buffer* p = &g.buffer;
    uint32_t address, kind;
    char type;
    type = Buffer_ReadChar(p);
    if (__mriExceptionCode || !Buffer_IsNextCharEqualTo(p, ',') || !readAddressAndLength(&address, &kind)) return reply("E01");
    switch (type)
    {
    case '1':
        (set ? Platform_SetHardwareBreakpoint : Platform_ClearHardwareBreakpoint)(address, kind);
        return reply("OK");
    case '2':
    case '3':
    case '4':
        (set ? Platform_SetHardwareWatchpoint : Platform_ClearHardwareWatchpoint)(address, kind, (PlatformWatchpointType)(type - '2'));
        return reply("OK");
    default:
        return reply("");
    }
}
static uint32_t cmdSetBreak(void) { return breakWatch(1); }
static uint32_t cmdClearBreak(void) { return breakWatch(0); }

static int handleCommand(void)
{
    static const struct { char c; uint32_t (*handler)(void); } table[] =
    {
        {'?', cmdStopReason}, {'c', cmdContinue}, {'C', cmdContinueWithSignal}, {'g', cmdReadRegisters},
        {'G', cmdWriteRegisters}, {'m', cmdReadMemory}, {'M', cmdWriteMemory}, {'q', cmdQuery}, {'s', cmdStep},
        {'S', cmdStepWithSignal}, {'X', cmdWriteMemoryBinary}, {'z', cmdClearBreak}, {'Z', cmdSetBreak}
    };
    uint32_t result = 0;
    size_t i;
    char c;
    InitBuffer();
    Packet_GetFromGDB(&g.packet, &g.buffer);
    c = Buffer_ReadChar(&g.buffer);
    for (i = 0 ; i < sizeof(table)/sizeof(table[0]) ; i++)
        if (table[i].c == c) break;
    if (i < sizeof(table)/sizeof(table[0]))
        result = table[i].handler();
    else
        reply("");
    if (!(result & RETURN_IMMEDIATELY)) SendPacketToGdb();
    return result & RESUME_PROGRAM;
}

void __mriInit(const char* pParameters)
{
    Token token;
    memset(&g, 0, sizeof(g));
    memset(&token, 0, sizeof(token));
    Platform_Init(&token);
    g.flags = FLAG_INIT | FLAG_FIRST;
}

void __mriDebugException(void)
{
    int first = g.flags & FLAG_FIRST;
    int justConnected = first && Platform_CommShouldWaitForGdbConnect();
    int wasStepping = Platform_IsSingleStepping();

    if (Platform_CommCausedInterrupt() && !Platform_CommHasReceiveData())
    {
        Platform_CommClearInterrupt();
        return;
    }
    Platform_EnteringDebuggerHook();
    if (first && Platform_CommShouldWaitForGdbConnect())
    {
        for (;;)
        {
            while (Platform_CommIsWaitingForGdbToConnect()) {}
            if (Platform_CommReceiveChar() == '+') break;
            Platform_CommWaitForReceiveDataToStop();
            Platform_CommPrepareToWaitForGdbConnection();
        }
    }
    Platform_EnteringDebugger();
    g.signalValue = Platform_DetermineCauseOfException();
    if (g.signalValue == 5 && Semihost_IsDebuggeeMakingSemihostCall() && Semihost_HandleSemihostRequest() && !wasStepping)
        ;
    else
    {
        if (!justConnected)
        {
            Platform_DisplayFaultCauseToGdbConsole();
            cmdStopReason();
        }
        while (!handleCommand()) {}
    }
    Platform_LeavingDebugger();
    Platform_LeavingDebuggerHook();
    g.flags &= ~FLAG_FIRST;
}
