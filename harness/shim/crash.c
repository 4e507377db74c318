/* Kills the process (SIGKILL) at its Nth file-system call after VH_CRASH_ARMED
   appears in the environment; a torn crash first does half of a write. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
static int count;
static int due(void) {
    if (!getenv("VH_CRASH_ARMED")) return 0;
    const char *at = getenv("VH_CRASH_AT");
    return at && ++count == atoi(at);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
ssize_t write(int fd, const void *b, size_t n) {
    if (fd > 2 && due()) {
        if (getenv("VH_CRASH_TORN") && *getenv("VH_CRASH_TORN") == '1') REAL(write)(fd, b, n / 2);
        die();
    }
    return REAL(write)(fd, b, n);
}
int fsync(int fd) { if (due()) die(); return REAL(fsync)(fd); }
int fdatasync(int fd) { if (due()) die(); return REAL(fdatasync)(fd); }
int rename(const char *a, const char *b) { if (due()) die(); return REAL(rename)(a, b); }
int unlink(const char *a) { if (due()) die(); return REAL(unlink)(a); }
int link(const char *a, const char *b) { if (due()) die(); return REAL(link)(a, b); }
int mkdir(const char *a, mode_t m) { if (due()) die(); return REAL(mkdir)(a, m); }
int flock(int fd, int o) { if (due()) die(); return REAL(flock)(fd, o); }
int ftruncate64(int fd, off_t n) { if (due()) die(); return REAL(ftruncate64)(fd, n); }
int open64(const char *p, int f, ...) {
    va_list v; va_start(v, f); mode_t m = (f & O_CREAT) ? va_arg(v, mode_t) : 0; va_end(v);
    if ((f & (O_WRONLY | O_RDWR)) && due()) die();
    return REAL(open64)(p, f, m);
}
int open(const char *p, int f, ...) {
    va_list v; va_start(v, f); mode_t m = (f & O_CREAT) ? va_arg(v, mode_t) : 0; va_end(v);
    if ((f & (O_WRONLY | O_RDWR)) && due()) die();
    return REAL(open)(p, f, m);
}
