/* Preloaded into a command: notes the environment variables and the files it looks at (to $VWATCH). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

extern char **environ;

static const char *target(void)
{
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "VWATCH=", 7))
            return *e + 7;
    return 0;
}
static void note(const char *kind, const char *s)
{
    const char *t = target();
    char b[4300];
    size_t n = s ? strlen(s) : 0;
    if (!t || !s || n > 4200)
        return;
    memcpy(b, kind, 2);
    memcpy(b + 2, s, n);
    for (size_t i = 2; i < n + 2; i++)
        if (b[i] == '\n')
            b[i] = '?';
    b[n + 2] = '\n';
    int fd = syscall(SYS_openat, AT_FDCWD, t, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, n + 3);
        syscall(SYS_close, fd);
    }
}
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))

char *getenv(const char *n) { note("e ", n); return REAL(getenv)(n); }
char *secure_getenv(const char *n) { note("e ", n); return REAL(secure_getenv)(n); }
#define OPEN(f)                                                 \
    int f(const char *p, int fl, ...)                           \
    {                                                           \
        va_list a;                                              \
        va_start(a, fl);                                        \
        mode_t m = va_arg(a, mode_t);                           \
        va_end(a);                                              \
        note("f ", p);                                          \
        return REAL(f)(p, fl, m);                               \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(f)                                               \
    int f(int d, const char *p, int fl, ...)                    \
    {                                                           \
        va_list a;                                              \
        va_start(a, fl);                                        \
        mode_t m = va_arg(a, mode_t);                           \
        va_end(a);                                              \
        note("f ", p);                                          \
        return REAL(f)(d, p, fl, m);                            \
    }
OPENAT(openat)
OPENAT(openat64)
FILE *fopen(const char *p, const char *m) { note("f ", p); return REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { note("f ", p); return REAL(fopen64)(p, m); }
int stat(const char *p, struct stat *s) { note("f ", p); return REAL(stat)(p, s); }
int lstat(const char *p, struct stat *s) { note("f ", p); return REAL(lstat)(p, s); }
int stat64(const char *p, struct stat64 *s) { note("f ", p); return REAL(stat64)(p, s); }
int lstat64(const char *p, struct stat64 *s) { note("f ", p); return REAL(lstat64)(p, s); }
int statx(int d, const char *p, int f, unsigned m, struct statx *s) { note("f ", p); return REAL(statx)(d, p, f, m, s); }
int access(const char *p, int m) { note("f ", p); return REAL(access)(p, m); }
int faccessat(int d, const char *p, int m, int f) { note("f ", p); return REAL(faccessat)(d, p, m, f); }
ssize_t readlink(const char *p, char *b, size_t n) { note("f ", p); return REAL(readlink)(p, b, n); }
