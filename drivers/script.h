/* Reads a script (one operation per line, words separated by spaces) and helps to print one result line per operation. */
#ifndef _SCRIPT_H_
#define _SCRIPT_H_
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifndef NO_WRAP
#include "../stubs/faultwrap.h"
#define OWN(X) do { vf_enable(0); X; vf_enable(1); } while (0)
#else
#define OWN(X) do { X; } while (0)
#endif

/* The chain of exception handlers. Without it (a repository which keeps it elsewhere) its state is judged by what it does only. */
#ifndef NO_INTERNALS
#define HANDLERS      ((void*)g_pExceptionHandlers)
#define RESTORE(P)    (g_pExceptionHandlers = (P))
#else
#define HANDLERS      ((void*)0)
#define RESTORE(P)    ((void)(P))
#endif

static char*  g_line;
static size_t g_lineAlloc;
static char*  g_word[4096];
static int    g_words;

static int nextLine(FILE* f)
{
    ssize_t n = getline(&g_line, &g_lineAlloc, f);
    char* p;
    if (n <= 0) return 0;
    g_words = 0;
    for (p = strtok(g_line, " \n") ; p && g_words < 4096 ; p = strtok(NULL, " \n")) g_word[g_words++] = p;
    return 1;
}
static const char* word(int i) { return i < g_words ? g_word[i] : ""; }
static uint32_t num(int i) { return (uint32_t)strtoul(word(i), NULL, 16); }
static int is(const char* name) { return g_words && !strcmp(g_word[0], name); }
static unsigned char* unhex(const char* p, size_t* pLen)
{
    size_t i, n = strcmp(p, "-") ? strlen(p) / 2 : 0;
    unsigned char* out = NULL;
    OWN(out = (unsigned char*)malloc(n));       /* exact size: reading past the end is caught */
    for (i = 0 ; i < n ; i++) { char t[3] = {p[2*i], p[2*i+1], 0}; out[i] = (unsigned char)strtoul(t, NULL, 16); }
    *pLen = n;
    return out;
}
/* "rep N operation...": runs an operation N times; only the last one's output is shown. Returns N, or 1. */
static uint32_t repetitions(void)
{
    uint32_t n;
    if (!is("rep")) return 1;
    n = num(1);
    memmove(g_word, g_word + 2, sizeof(g_word[0]) * (g_words - 2));
    g_words -= 2;
    return n;
}
static void hexOut(const void* pv, size_t n)
{
    const unsigned char* p = (const unsigned char*)pv;
    size_t i;
    for (i = 0 ; i < n ; i++) fprintf(stdout, "%02x", p[i]);
}
/* Runs op() for one line: "ok value" or "ok ex code", and how the exception handler chain stood afterwards when it is not as it was
   before. A repeated operation also tells how many of its runs threw. The results go to OUT, which op() prints to. */
#define RUN_LINE(OUT) \
    do { \
        static FILE* nowhere; \
        void* before = HANDLERS; \
        FILE* volatile real = OUT; \
        volatile uint32_t n = repetitions(), left, threw = 0; \
        volatile int damaged = 0; \
        if (!nowhere) OWN(nowhere = fopen("/dev/null", "w")); \
        fputs("ok ", OUT); \
        for (left = n ; left ; left--) \
        { \
            OUT = left > 1 ? nowhere : real; \
            __try { op(); } \
            __catch { threw++; fprintf(OUT, "ex %x", getExceptionCode() - mriMaxException); } \
            if (HANDLERS != before) { damaged = 1; RESTORE(before); } \
        } \
        OUT = real; \
        if (n > 1) fprintf(OUT, " threw %x", threw); \
        if (damaged) fprintf(OUT, " handlers-damaged"); \
        fprintf(OUT, "\n"); \
        fflush(OUT); \
    } while (0)
#endif
