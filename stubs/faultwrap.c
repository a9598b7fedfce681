/* Test-bench instrumentation linked in with -Wl,--wrap=...: counts and logs the calls the program makes to the
   allocator, to stdio and to the console descriptors, fails the ones a test asks for, and keeps a table of what is
   still allocated/open so that leaks and double closes can be reported when the program ends.

   VF_FAULT="op:n[:mode],..."   fail the n-th call (1-based) of op;  n=0: fail every call
                                 op in malloc realloc fopen fread fseek ftell fgets read write select
                                 mode (fread) short = return half of the items asked for; (read/write) short|eintr
                                 a failed fread/fgets also marks its stream, as the C library does (ferror), and keeps failing
   VF_REPORT=path               write a report at exit: counts, live allocations, open files, bad closes
   The functions vf_* below may also be called directly by a driver. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/select.h>
#include <fcntl.h>
#include "faultwrap.h"

/* The same settings as rsp.SAN_ENV, for runs with an empty environment. */
const char* __asan_default_options(void);
const char* __ubsan_default_options(void);
const char* __msan_default_options(void);
const char* __asan_default_options(void)
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=96:"
           "handle_segv=1:handle_abort=1:detect_stack_use_after_return=0";
}
const char* __ubsan_default_options(void)
{
    return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}
const char* __msan_default_options(void)
{
    return "exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=96";
}

void*  __real_malloc(size_t);
void*  __real_calloc(size_t, size_t);
void*  __real_realloc(void*, size_t);
void   __real_free(void*);
char*  __real_strdup(const char*);
FILE*  __real_fopen(const char*, const char*);
int    __real_fclose(FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
int    __real_fseek(FILE*, long, int);
long   __real_ftell(FILE*);
char*  __real_fgets(char*, int, FILE*);
void   __real_rewind(FILE*);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int    __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);

static const char* g_names[VF_OPS] = {"malloc", "realloc", "fopen", "fread", "fseek", "ftell", "fgets", "read",
                                      "write", "select", "free", "fclose"};
static unsigned long g_counts[VF_OPS];
static struct { int op; long n; int mode; int isEvery; unsigned long fired; } g_faults[64];
static int g_faultCount;
static int g_ready;
static int g_enabled = 1;

#define MAX_LIVE 65536
static void*  g_live[MAX_LIVE];
static size_t g_liveSize[MAX_LIVE];
static int    g_liveTop;
static unsigned long g_liveCount, g_peak;
static FILE* g_files[64];
static int   g_fileCount, g_badCloses;

static void parse(const char* p)
{
    g_faultCount = 0;
    while (p && *p && g_faultCount < 64)
    {
        char op[32];
        int i = 0;
        while (*p && *p != ':' && i < 31) op[i++] = *p++;
        op[i] = 0;
        if (*p != ':') return;
        g_faults[g_faultCount].n = strtol(p + 1, (char**)&p, 10);
        g_faults[g_faultCount].isEvery = g_faults[g_faultCount].n == 0;
        g_faults[g_faultCount].mode = 0;
        g_faults[g_faultCount].fired = 0;
        if (*p == ':')
        {
            if (!strncmp(p + 1, "short", 5)) g_faults[g_faultCount].mode = VF_SHORT;
            if (!strncmp(p + 1, "eintr", 5)) g_faults[g_faultCount].mode = VF_EINTR;
            while (*p && *p != ',') p++;
        }
        for (i = 0 ; i < VF_OPS ; i++)
            if (!strcmp(g_names[i], op)) break;
        if (i < VF_OPS) { g_faults[g_faultCount].op = i; g_faultCount++; }
        if (*p == ',') p++;
    }
}

static void report(void)
{
    const char* path = getenv("VF_REPORT");
    FILE* f;
    if (!path) return;
    g_enabled = 0;
    f = __real_fopen(path, "w");
    if (!f) return;
    vf_report(f);
    __real_fclose(f);
}

__attribute__((constructor)) static void init(void)
{
    if (g_ready) return;
    g_ready = 1;
    parse(getenv("VF_FAULT"));
    if (getenv("VF_REPORT")) atexit(report);
}

void vf_report(FILE* f)
{
    int i;
    for (i = 0 ; i < VF_OPS ; i++) fprintf(f, "count %s %lu\n", g_names[i], g_counts[i]);
    for (i = 0 ; i < g_faultCount ; i++) fprintf(f, "fired %s %lu\n", g_names[g_faults[i].op], g_faults[i].fired);
    fprintf(f, "live %lu\npeak %lu\nopen %d\nbadclose %d\n", g_liveCount, g_peak, g_fileCount, g_badCloses);
}
void vf_setFaults(const char* p) { g_ready = 1; parse(p); }
void vf_enable(int isEnabled) { g_ready = 1; g_enabled = isEnabled; }
void vf_resetCounts(void) { memset(g_counts, 0, sizeof(g_counts)); g_badCloses = 0; }
unsigned long vf_live(void) { return g_liveCount; }
int vf_openFiles(void) { return g_fileCount; }
int vf_badCloses(void) { return g_badCloses; }
unsigned long vf_count(int op) { return g_counts[op]; }
unsigned long vf_fired(void)
{
    unsigned long n = 0;
    int i;
    for (i = 0 ; i < g_faultCount ; i++) n += g_faults[i].fired;
    return n;
}

static int fault(int op)
{
    int i;
    init();
    if (!g_enabled) return 0;
    g_counts[op]++;
    for (i = 0 ; i < g_faultCount ; i++)
        if (g_faults[i].op == op && (g_faults[i].isEvery || g_counts[op] == (unsigned long)g_faults[i].n))
        {
            g_faults[i].fired++;
            return 1 + g_faults[i].mode;
        }
    return 0;
}

static void track(void* p, size_t n)
{
    int i;
    if (!p || !g_enabled) return;
    g_liveCount++;
    if (g_liveCount > g_peak) g_peak = g_liveCount;
    for (i = 0 ; i < g_liveTop ; i++)
        if (!g_live[i]) break;
    if (i == MAX_LIVE) return;
    if (i == g_liveTop) g_liveTop++;
    g_live[i] = p;
    g_liveSize[i] = n;
}
static void untrack(void* p)
{
    int i;
    if (!p) return;
    for (i = g_liveTop - 1 ; i >= 0 ; i--)
        if (g_live[i] == p)
        {
            g_live[i] = NULL;
            g_liveCount--;
            if (i == g_liveTop - 1) g_liveTop--;
            return;
        }
}

void* __wrap_malloc(size_t n)
{
    void* p;
    if (fault(VF_MALLOC)) { errno = ENOMEM; return NULL; }
    p = __real_malloc(n);
    track(p, n);
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    void* p;
    if (fault(VF_MALLOC)) { errno = ENOMEM; return NULL; }
    p = __real_calloc(a, b);
    track(p, a * b);
    return p;
}
char* __wrap_strdup(const char* s)
{
    char* p;
    if (fault(VF_MALLOC)) { errno = ENOMEM; return NULL; }
    p = __real_strdup(s);
    track(p, strlen(s) + 1);
    return p;
}
void* __wrap_realloc(void* old, size_t n)
{
    void* p;
    if (fault(VF_REALLOC)) { errno = ENOMEM; return NULL; }
    p = __real_realloc(old, n);
    if (p || n == 0) { untrack(old); track(p, n); }
    return p;
}
void __wrap_free(void* p)
{
    if (g_enabled) { init(); g_counts[VF_FREE]++; }
    untrack(p);
    __real_free(p);
}
FILE* __wrap_fopen(const char* name, const char* mode)
{
    FILE* f;
    if (fault(VF_FOPEN)) { errno = EACCES; return NULL; }
    f = __real_fopen(name, mode);
    if (f && g_fileCount < 64) g_files[g_fileCount++] = f;
    return f;
}
static void mendStream(FILE* f);
int __wrap_fclose(FILE* f)
{
    int i;
    init();
    g_counts[VF_FCLOSE]++;
    for (i = 0 ; i < g_fileCount ; i++)
        if (g_files[i] == f)
        {
            g_files[i] = g_files[--g_fileCount];
            mendStream(f);
            return __real_fclose(f);
        }
    g_badCloses++;      /* closing a stream that is not open: record it rather than corrupt the C library */
    return -1;
}
/* The device stays unreadable: reading the stream again, other than from its start, fails again. */
static FILE* g_broken[16];
static int* brokenSlot(FILE* f) { static int found; for (found = 0 ; found < 16 ; found++) if (g_broken[found] == f) return &found; return NULL; }
static void breakStream(FILE* f)
{
    int* i;
    f->_flags |= 0x20;
    if (!brokenSlot(f) && (i = brokenSlot(NULL)) != NULL) g_broken[*i] = f;
}
static void mendStream(FILE* f)
{
    int* i = brokenSlot(f);
    if (i) g_broken[*i] = NULL;
}
size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f)
{
    int e = fault(VF_FREAD);
    if (!e && f && brokenSlot(f)) e = 1;
    if (e)      /* the C library marks the stream when the device reports an error */
    {
        size_t got = (e == 1 + VF_SHORT && n > 1) ? __real_fread(p, size, n / 2, f) : 0;
        breakStream(f);
        errno = EIO;
        return got;
    }
    return __real_fread(p, size, n, f);
}
int __wrap_fseek(FILE* f, long off, int whence)
{
    if (fault(VF_FSEEK)) { errno = EIO; return -1; }
    return __real_fseek(f, off, whence);
}
long __wrap_ftell(FILE* f)
{
    if (fault(VF_FTELL)) { errno = EIO; return -1; }
    return __real_ftell(f);
}
void __wrap_rewind(FILE* f) { mendStream(f); __real_rewind(f); }
char* __wrap_fgets(char* s, int n, FILE* f)
{
    if (fault(VF_FGETS) || (f && brokenSlot(f))) { breakStream(f); errno = EIO; return NULL; }
    return __real_fgets(s, n, f);
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    int e = fault(VF_READ);
    if (e) { errno = e == 1 + VF_EINTR ? EINTR : EIO; return -1; }
    return __real_read(fd, p, n);
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    int e = fault(VF_WRITE);
    if (e) { errno = e == 1 + VF_EINTR ? EINTR : EIO; return -1; }
    return __real_write(fd, p, n);
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t)
{
    if (fault(VF_SELECT)) { errno = EINTR; return -1; }
    return __real_select(n, r, w, x, t);
}
