/* Drives the MemorySim API with operations read from standard input; prints "ok [value]" or "ex code" per operation, and how the
   exception handler chain stood afterwards when it is not as it was before. */
#include "script.h"
#include <MemorySim.h>
#include <common.h>

static IMemory* m;
static const char* g_xml;
#define HOLDS 16
static uint8_t* g_hold[HOLDS];

static void op(void)
{
    size_t n;
    unsigned char* p;
    if (is("init")) { m = MemorySim_Init(); g_xml = NULL; fprintf(stdout, "%d", m != NULL); }
    else if (is("uninit")) { MemorySim_Uninit(m); }
    else if (is("uninit0")) { MemorySim_Uninit(NULL); }
    else if (is("region")) MemorySim_CreateRegion(m, num(1), num(2));
    else if (is("alias")) MemorySim_CreateAlias(m, num(1), num(2), num(3));
    else if (is("ro")) MemorySim_MakeRegionReadOnly(m, num(1));
    else if (is("load") || is("flash"))
    {
        unsigned char* volatile image = unhex(word(is("load") ? 2 : 1), &n);
        __try
        {
            if (is("load")) MemorySim_LoadFromFlashImage(m, num(1), image, n);
            else MemorySim_CreateRegionsFromFlashImage(m, image, n);
        }
        __catch
        {
            OWN(free(image));
            __rethrow;
        }
        OWN(free(image));
    }
    else if (is("r8"))  { uint32_t v = IMemory_Read8(m, num(1)); fprintf(stdout, "%x", v); }
    else if (is("r16")) { uint32_t v = IMemory_Read16(m, num(1)); fprintf(stdout, "%x", v); }
    else if (is("r32")) { uint32_t v = IMemory_Read32(m, num(1)); fprintf(stdout, "%x", v); }
    else if (is("w8"))  IMemory_Write8(m, num(1), num(2));
    else if (is("w16")) IMemory_Write16(m, num(1), num(2));
    else if (is("w32")) IMemory_Write32(m, num(1), num(2));
    else if (is("mapr")) { const void* v = MemorySim_MapSimulatedAddressToHostAddressForRead(m, num(1), num(2)); hexOut(v, num(2)); }
    else if (is("mapw"))
    {
        void* v = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, num(1), num(2));
        p = unhex(word(3), &n);
        memcpy(v, p, n);
        OWN(free(p));
    }
    else if (is("holdr")) { const void* v = MemorySim_MapSimulatedAddressToHostAddressForRead(m, num(2), num(3)); g_hold[num(1)] = (uint8_t*)v; }
    else if (is("holdw")) { void* v = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, num(2), num(3)); g_hold[num(1)] = (uint8_t*)v; }
    else if (is("hget")) hexOut(g_hold[num(1)] + num(2), num(3));
    else if (is("hput")) { p = unhex(word(3), &n); memcpy(g_hold[num(1)] + num(2), p, n); OWN(free(p)); }
    else if (is("xml")) { const char* v = MemorySim_GetMemoryMapXML(m); g_xml = v; fprintf(stdout, "%s", v); }
    else if (is("xmlold")) fprintf(stdout, "%s", g_xml);            /* the pointer of the last "xml" */
    else if (is("xmlagain")) { const char* v = MemorySim_GetMemoryMapXML(m); fprintf(stdout, "%d", v != NULL && !strcmp(v, g_xml)); }
    else if (is("bp")) MemorySim_SetHardwareBreakpoint(m, num(1), num(2));
    else if (is("cbp")) MemorySim_ClearHardwareBreakpoint(m, num(1), num(2));
    else if (is("wp")) MemorySim_SetHardwareWatchpoint(m, num(1), num(2), (WatchpointType)num(3));
    else if (is("cwp")) MemorySim_ClearHardwareWatchpoint(m, num(1), num(2), (WatchpointType)num(3));
    else if (is("was")) { int v = MemorySim_WasWatchpointEncountered(m); fprintf(stdout, "%x", v); }
    else if (is("rc")) { uint32_t v = MemorySim_GetFlashReadCount(m, num(1)); fprintf(stdout, "%x", v); }
#ifndef NO_WRAP
    else if (is("fault")) { vf_resetCounts(); vf_setFaults(g_words > 1 ? word(1) : ""); }
    else if (is("fired")) { fprintf(stdout, "%lx", vf_fired()); vf_setFaults(""); }
    else if (is("live")) fprintf(stdout, "%lx", vf_live());
#else
    else if (is("fired")) fprintf(stdout, "0");
    else if (is("fault")) { }
    else if (is("live")) fprintf(stdout, "0");
#endif
    else { fprintf(stderr, "simdrv: bad operation %s\n", word(0)); exit(97); }
}

int main(int argc, char** argv)
{
    while (nextLine(stdin))
    {
        if (!g_words) continue;
        RUN_LINE(stdout);
    }
    free(g_line);
    return 0;
}
