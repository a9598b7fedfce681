/* Drives the standard-I/O connection to GDB. Operations come from descriptor 3 and results go to descriptor 4, so that the
   real standard input and output carry only what the connection reads and writes. */
#include "script.h"
#include <signal.h>
#include <unistd.h>
#include <common.h>
#include <StandardIComm.h>

static IComm* c;

int main(void)
{
    FILE* in = fdopen(3, "r");
    FILE* out = fdopen(4, "w");
    signal(SIGPIPE, SIG_IGN);
    while (nextLine(in))
    {
        void* before = HANDLERS;
        if (!g_words) continue;
        fputs("ok ", out);
        __try
        {
            if (is("init")) { c = StandardIComm_Init(); fprintf(out, "%d", c != NULL); }
            else if (is("uninit")) StandardIComm_Uninit(c);
            else if (is("uninit0")) StandardIComm_Uninit(NULL);
            else if (is("has")) { int v = IComm_HasReceiveData(c); fprintf(out, "%d %d", !!v, getExceptionCode()); }
            else if (is("recv")) { int v = IComm_ReceiveChar(c); fprintf(out, "%02x", v & 0xFF); }
            else if (is("send")) IComm_SendChar(c, (int)num(1));
            else if (is("takes"))
            {
                uint32_t k, threw = 0;
                for (k = 0 ; k < num(1) && !threw ; k++)
                {
                    volatile int v = 0;
                    __try { v = IComm_ReceiveChar(c); }
                    __catch { threw++; continue; }
                    fprintf(out, "%02x", v & 0xFF);
                }
                clearExceptionCode();
                fprintf(out, " %x", threw);
            }
            else if (is("gives"))
            {
                size_t k, n;
                volatile int threw = 0;
                unsigned char* p = unhex(word(1), &n);
                for (k = 0 ; k < n && !threw ; k++)
                {
                    __try { IComm_SendChar(c, p[k]); }
                    __catch { threw++; }
                }
                clearExceptionCode();
                OWN(free(p));
                fprintf(out, "%x", threw);
            }
            else if (is("stop")) { int v = IComm_ShouldStopRun(c); fprintf(out, "%d", !!v); }
            else if (is("conn")) { int v = IComm_IsGdbConnected(c); fprintf(out, "%d %d", !!v, getExceptionCode()); }
            else if (is("fault")) { vf_resetCounts(); vf_setFaults(g_words > 1 ? word(1) : ""); }
            else if (is("fired")) { fprintf(out, "%lx", vf_fired()); vf_setFaults(""); }
            else exit(97);
        }
        __catch
        {
            fprintf(out, "ex %x", getExceptionCode() - mriMaxException);
        }
        if (HANDLERS != before) { fprintf(out, " handlers-damaged"); RESTORE(before); }
        fprintf(out, "\n");
        fflush(out);
    }
    fclose(in);
    fclose(out);
    free(g_line);
    return 0;
}
