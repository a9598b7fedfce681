/* Interprets random programs made of guarded blocks, throws, rethrows and calls, using the real macros of try_catch.h, and
   prints what every statement observes. A program is one line of words:
     T body C handler E     guarded block            F body E        call of a function
     N body E               function which swallows exceptions with __nothrow (V: __nothrow_and_return, value printed)
     t code / m code len seed / f code text-number    throw / throw_msg (long text) / throw_msg with arguments
     r   rethrow    c   clear    k n   mark    p   print code, message, handler depth */
#include "script.h"
#include <common.h>

static int g_depthOfCalls;

static int skip(int pc)          /* from the start of a body to its closing C or E */
{
    int depth = 0;
    for ( ; pc < g_words ; pc++)
    {
        char c = g_word[pc][0];
        if (c == 'T' || c == 'F' || c == 'N' || c == 'V') depth++;
        else if (c == 'E') { if (depth-- == 0) return pc; }
        else if (c == 'C' && depth == 0) return pc;
    }
    exit(96);
}

static int depth(void)
{
#ifndef NO_INTERNALS
    int n = 0;
    ExceptionHandler* p;
    for (p = g_pExceptionHandlers ; p && n < 1000 ; p = p->pPrevious) n++;
    return n;
#else
    return -1;
#endif
}

static int fill(char* p, int len, int seed)
{
    int i;
    for (i = 0 ; i < len ; i++) p[i] = 'a' + (seed + i * 7) % 26;
    p[len] = 0;
    return len;
}

static int run(int pc);

static int callee(int pc, char* pad)
{
    volatile char local[200];
    local[0] = *pad;
    g_depthOfCalls++;
    pc = run(pc);
    local[1] = local[0];
    return pc;
}
static void swallow(int pc)
{
    __try
        run(pc);
    __catch
        __nothrow;
}
static int swallowAndReturn(int pc)
{
    __try
        run(pc);
    __catch
        __nothrow_and_return(-7);
    return 11;
}

static int run(int pc)
{
    static char text[5000];
    while (pc < g_words)
    {
        char c = g_word[pc][0];
        switch (c)
        {
        case 'C': case 'E': return pc;
        case 'T':
        {
            volatile int start = pc + 1;
            volatile int caught = 0;
            volatile int canary = 0x1234 + pc;
            __try
            {
                int end = run(start);
                if (g_word[end][0] != 'C') exit(95);
            }
            __catch
            {
                int end;
                caught = 1;
                fprintf(stdout, "[ ");
                end = run(skip(start) + 1);
                if (g_word[end][0] != 'E') exit(94);
                fprintf(stdout, "] ");
            }
            if (canary != 0x1234 + start - 1) exit(93);
            fprintf(stdout, "%c ", caught ? 'y' : 'n');
            pc = skip(skip(start) + 1) + 1;
            break;
        }
        case 'F': pc = callee(pc + 1, text) + 1; break;
        case 'N': swallow(pc + 1); pc = skip(pc + 1) + 1; break;
        case 'V': fprintf(stdout, "v%d ", swallowAndReturn(pc + 1)); pc = skip(pc + 1) + 1; break;
        case 't': __throw(atoi(g_word[pc + 1]));
        case 'm':
            fill(text, atoi(g_word[pc + 2]), atoi(g_word[pc + 3]));
            __throw_msg(atoi(g_word[pc + 1]), "%s", text);
        case 'f':
            __throw_msg(atoi(g_word[pc + 1]), "at 0x%08X: %d of %s %c%%", (unsigned)atoi(g_word[pc + 2]), atoi(g_word[pc + 2]) - 5, "x y", '!');
        case 'r': __rethrow;
        case 'c': clearExceptionCode(); pc++; break;
        case 'k': fprintf(stdout, "k%s ", g_word[pc + 1]); pc += 2; break;
        case 'p':
            fprintf(stdout, "p%d/%d/%s ", getExceptionCode(), depth(), getExceptionMessage());
            pc++;
            break;
        default: exit(92);
        }
    }
    return pc;
}

int main(void)
{
    while (nextLine(stdin))
    {
        fputs("ok ", stdout);
        run(0);
        fprintf(stdout, "depth%d\n", depth());
        fflush(stdout);
    }
    free(g_line);
    return 0;
}
