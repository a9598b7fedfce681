/* Drives libmocks (allocation, file and printf failure injection) and GetFileSize() with operations from standard input. */
#include "script.h"
#include <unistd.h>
#include <common.h>
#include <FileFailureInject.h>
#include <MallocFailureInject.h>
#include <printfSpy.h>
#undef malloc
#undef realloc
#undef free
#undef printf
#undef fprintf
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fwrite
#undef fread
#undef fgets

#define SLOTS 8
static unsigned char* g_mem[SLOTS];
static size_t g_size[SLOTS];
static unsigned g_seed[SLOTS];
static FILE* g_file[SLOTS];
static const char** g_lines;
static size_t g_lineCount;
static int g_canary;

static void fillSlot(int i)
{
    size_t k;
    g_seed[i] = g_seed[i] * 7 + 13;
    for (k = 0 ; k < g_size[i] ; k++) g_mem[i][k] = (unsigned char)(g_seed[i] + k * 31);
}
static int intact(int i, const unsigned char* p, size_t n)
{
    size_t k;
    for (k = 0 ; k < n ; k++)
        if (p[k] != (unsigned char)(g_seed[i] + k * 31)) return 0;
    return 1;
}
static void text(const char* p) { if (p) { fputc('=', stdout); fputs(p, stdout); } else fputs("NULL", stdout); }

static char* unhexText(int i)
{
    size_t n;
    unsigned char* p = unhex(word(i), &n);
    char* s = (char*)malloc(n + 1);
    memcpy(s, p, n);
    s[n] = 0;
    free(p);
    return s;
}

static void op(void)
{
    int i = (int)num(1);
    size_t n;
    /* allocation */
    if (is("fail")) MallocFailureInject_FailAllocation(num(1));
    else if (is("restore")) MallocFailureInject_Restore();
    else if (is("malloc"))
    {
        unsigned char* p = (unsigned char*)hook_malloc(num(2));
        if (p) { g_mem[i] = p; g_size[i] = num(2); fillSlot(i); }
        fprintf(stdout, "%d", p != NULL);
    }
    else if (is("realloc"))
    {
        size_t old = g_mem[i] ? g_size[i] : 0;
        unsigned char* p = (unsigned char*)hook_realloc(g_mem[i], num(2));
        if (!p) fprintf(stdout, "0 %d", !g_mem[i] || intact(i, g_mem[i], old));
        else
        {
            fprintf(stdout, "1 %d", intact(i, p, old < num(2) ? old : num(2)));
            g_mem[i] = p;
            g_size[i] = num(2);
            fillSlot(i);
        }
    }
    else if (is("realloc0"))
    {   /* to size 0: frees the block and returns NULL as the C library does, or fails and leaves it */
        unsigned char* p = (unsigned char*)hook_realloc(g_mem[i], 0);
        int fails = num(2);
        fprintf(stdout, "%d %d", p != NULL, fails ? intact(i, g_mem[i], g_size[i]) : 1);
        if (!fails) g_mem[i] = NULL;
    }
    else if (is("mburst"))
    {   /* allocates and frees again num(1) times: how many failed, and which was the first that did */
        uint32_t k, failed = 0, first = 0;
        for (k = 1 ; k <= num(1) ; k++)
        {
            void* p = k & 1 ? hook_malloc(k & 63) : hook_realloc(NULL, 1 + (k & 63));
            if (!p) { failed++; if (!first) first = k; }
            hook_free(p);
        }
        fprintf(stdout, "%x %x", failed, first);
    }
    else if (is("free")) { int ok = !g_mem[i] || intact(i, g_mem[i], g_size[i]); hook_free(g_mem[i]); g_mem[i] = NULL; fprintf(stdout, "%d", ok); }
    /* printf */
    else if (is("hook")) printfSpy_Hook(num(1));
    else if (is("unhook")) printfSpy_Unhook();
    else if (is("out") || is("err"))
    {
        char* s = unhexText(2);
        int r = -99;
        FILE* f = is("out") ? stdout : stderr;
        int viaPrintf = is("out") && !strcmp(word(3), "p");
        switch (i)
        {
        case 0: r = viaPrintf ? hook_printf("%s", s) : hook_fprintf(f, "%s", s); break;
        case 1: r = viaPrintf ? hook_printf("<%d|%s|%c>", -12345, s, 'z') : hook_fprintf(f, "<%d|%s|%c>", -12345, s, 'z'); break;
        case 2: r = viaPrintf ? hook_printf("%08X %s %5u %ld %%", 0xBEEFu, s, 77u, -5000000000L)
                              : hook_fprintf(f, "%08X %s %5u %ld %%", 0xBEEFu, s, 77u, -5000000000L); break;
        case 3: r = viaPrintf ? hook_printf("plain") : hook_fprintf(f, "plain"); break;
        case 5:
            {
                const char* volatile nothing = "";
                r = viaPrintf ? hook_printf(nothing) : hook_fprintf(f, nothing);
                break;
            }
        case 6: r = viaPrintf ? hook_printf("%*s|%-*.3s", (int)strlen(s), s, 9, s) : hook_fprintf(f, "%*s|%-*.3s", (int)strlen(s), s, 9, s); break;
        case 4: r = viaPrintf ? hook_printf("%.3f %s %x %x %x %x %x %x", 1.5, s, 1, 2, 3, 4, 5, 6) : hook_fprintf(f, "%.3f %s %x %x %x %x %x %x", 1.5, s, 1, 2, 3, 4, 5, 6); break;
        }
        fprintf(stdout, "\t%d", r);
        free(s);
    }
    else if (is("nth")) text(printfSpy_GetNthOutput(num(1)));
    else if (is("last")) text(printfSpy_GetLastOutput());
    else if (is("prev")) text(printfSpy_GetPreviousOutput());
    else if (is("enth")) text(printfSpy_GetNthErrorOutput(num(1)));
    else if (is("elast")) text(printfSpy_GetLastErrorOutput());
    else if (is("eprev")) text(printfSpy_GetPreviousErrorOutput());
    else if (is("calls")) fprintf(stdout, "%zx", printfSpy_GetCallCount());
    /* files */
    else if (is("fopen"))
    {
        FILE* f = hook_fopen(word(2), word(3));
        if (f == (FILE*)&g_canary) fprintf(stdout, "fake");
        else if (!f) fprintf(stdout, "null");
        else { g_file[i] = f; fprintf(stdout, "real"); }
    }
    else if (is("fopenSet")) fopenSetReturn(num(1) ? (FILE*)&g_canary : NULL);
    else if (is("fopenRestore")) fopenRestore();
    else if (is("fclose"))      /* whether the stream was really closed shows in the number of open descriptors */
    {
        int fd = fileno(g_file[i]);
        int r = hook_fclose(g_file[i]);
        int isOpen = lseek(fd, 0, SEEK_CUR) != -1;
        if (isOpen) fclose(g_file[i]);
        g_file[i] = NULL;
        fprintf(stdout, "%d %d", r, isOpen);
    }
    else if (is("fcloseIgnore")) fcloseIgnore();
    else if (is("fcloseRestore")) fcloseRestore();
    else if (is("fseek")) fprintf(stdout, "%d", hook_fseek(g_file[i], (long)atol(word(2)), atoi(word(3))));
    else if (is("fseekSet")) fseekSetReturn(atoi(word(1)));
    else if (is("fseekPass")) fseekSetCallsBeforeFailure(atoi(word(1)));
    else if (is("fseekRestore")) fseekRestore();
    else if (is("ftell")) fprintf(stdout, "%ld", hook_ftell(g_file[i]));
    else if (is("ftellFail")) ftellFail(atol(word(1)));
    else if (is("ftellRestore")) ftellRestore();
    else if (is("fwrite")) { unsigned char* p = unhex(word(3), &n); fprintf(stdout, "%zu", hook_fwrite(p, num(2), n / num(2), g_file[i])); free(p); }
    else if (is("fwriteFail")) fwriteFail(strtoul(word(1), NULL, 16));
    else if (is("fwriteRestore")) fwriteRestore();
    else if (is("fread"))
    {
        size_t size = num(2), items = num(3), r;
        unsigned char* p = (unsigned char*)malloc(size * items + 1);
        memset(p, 0xA5, size * items + 1);
        r = hook_fread(p, size, items, g_file[i]);
        fprintf(stdout, "%zu ", r);
        hexOut(p, size * items);
        free(p);
    }
    else if (is("freadFail")) freadFail(strtoul(word(1), NULL, 16));
    else if (is("freadTo")) freadToFail(num(1));
    else if (is("freadRestore")) freadRestore();
    else if (is("fgetsSet"))
    {
        size_t k;
        for (k = 0 ; k < g_lineCount ; k++) free((void*)g_lines[k]);
        free(g_lines);
        g_lineCount = g_words - 1;
        g_lines = (const char**)malloc(sizeof(*g_lines) * g_lineCount + 1);
        for (k = 0 ; k < g_lineCount ; k++) g_lines[k] = unhexText(k + 1);
        fgetsSetData(g_lines, g_lineCount);
    }
    else if (is("fgetsRestore")) fgetsRestore();
    else if (is("fgets"))
    {
        int size = (int)num(2);
        char* p = (char*)malloc(size);
        char* r;
        memset(p, 0x7E, size);
        r = hook_fgets(p, size, g_file[i]);
        if (!r) fprintf(stdout, "null");
        else { fprintf(stdout, "%d ", r == p); hexOut(r, strlen(r)); }
        free(p);
    }
#ifndef NO_WRAP
    else if (is("fault")) { vf_resetCounts(); vf_setFaults(strcmp(word(1), "-") ? word(1) : NULL); }
    else if (is("live")) fprintf(stdout, "%ld", (long)vf_live());
    else if (is("open")) fprintf(stdout, "%d", vf_openFiles());
#else
    else if (is("live") || is("open")) fprintf(stdout, "0");
#endif
    else if (is("realtell")) fprintf(stdout, "%ld", ftell(g_file[i]));
    else if (is("realseek")) fprintf(stdout, "%d", fseek(g_file[i], atol(word(2)), SEEK_SET));
    else if (is("flush")) fflush(g_file[i]);
    else if (is("size")) { long v = GetFileSize(g_file[i]); fprintf(stdout, "%ld", v); }
    else { fprintf(stderr, "mockdrv: bad operation %s\n", word(0)); exit(97); }
}

int main(void)
{
    int i;
    while (nextLine(stdin))
    {
        if (!g_words) continue;
        RUN_LINE(stdout);
    }
    for (i = 0 ; i < SLOTS ; i++) { free(g_mem[i]); if (g_file[i]) fclose(g_file[i]); }
    while (g_lineCount) free((void*)g_lines[--g_lineCount]);
    free(g_lines);
    free(g_line);
    return 0;
}
