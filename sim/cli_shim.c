// LD_PRELOAD seam for the command-line tool: every read of standard input (or of
// the simulated file), every write of standard output and the random source are
// decided by the plan in CPSIM_PLAN; what happened is reported on descriptor 3.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static const char *rd, *wr, *path;
static int open_errs[8], n_open, i_open, ready, file_fd = -1, hung;
static long delivered, after_eof, f_eintr, f_short, f_err, f_eof, w_eintr, w_short, opens, eof_seen;
static unsigned long seed;

static void report(void) {
    char b[256];
    int n = snprintf(b, sizeof b, "%ld %ld %ld %ld %ld %ld %ld %ld %ld %d\n", delivered, f_eintr, f_short, f_err, f_eof, w_eintr, w_short, opens, eof_seen, hung);
    syscall(SYS_write, 3, b, n);
}
__attribute__((constructor)) static void init(void) {
    if (ready) return;
    ready = 1;
    rd = getenv("CPSIM_READS"); if (!rd) rd = "";
    wr = getenv("CPSIM_WRITES"); if (!wr) wr = "";
    path = getenv("CPSIM_PATH"); if (!path) path = "";
    const char *o = getenv("CPSIM_OPEN");
    while (o && *o && n_open < 8) { open_errs[n_open++] = strtol(o, (char **)&o, 10); if (*o == ',') o++; }
    const char *s = getenv("CPSIM_SEED");
    seed = s ? strtoul(s, 0, 10) : 1;
    atexit(report);
}
// plan items: eN errno, sN at most N bytes, z end of file
static char item(const char **p, long *v) {
    if (!**p) return 0;
    char k = *(*p)++;
    *v = strtol(*p, (char **)p, 10);
    if (**p == ',') (*p)++;
    return k;
}
static ssize_t sim_read(void *buf, size_t n) {
    long v, lim = n;
    char k = eof_seen ? 0 : item(&rd, &v);
    if (k == 'e') { if (v == EINTR) f_eintr++; else f_err++; errno = v; return -1; }
    if (k == 'z') { f_eof++; eof_seen++; return 0; }
    if (f_eof) { if (++after_eof > 64) { hung = 1; report(); _exit(77); } return 0; }
    if (k == 's' && v < lim) { lim = v; f_short++; }
    long got = 0;
    while (got < lim) {
        long r = syscall(SYS_read, 0, (char *)buf + got, lim - got);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        got += r;
    }
    delivered += got;
    if (got == 0 && n > 0) { eof_seen++; if (++after_eof > 64) { hung = 1; report(); _exit(77); } }
    return got;
}
ssize_t read(int fd, void *buf, size_t n) {
    init();
    if ((fd == 0 && !*path) || (fd == file_fd && fd >= 0)) return sim_read(buf, n);
    return syscall(SYS_read, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (fd == 1) {
        long v; char k = item(&wr, &v);
        if (k == 'e') { w_eintr++; errno = v; return -1; }
        if (k == 's' && v > 0 && (size_t)v < n) { n = v; w_short++; }
    }
    return syscall(SYS_write, fd, buf, n);
}
static int sim_open(const char *p, int flags, int mode) {
    init();
    if (*path && p && !strcmp(p, path)) {
        opens++;
        if (i_open < n_open) { int e = open_errs[i_open++]; if (e) { errno = e; return -1; } }
        return file_fd = syscall(SYS_dup, 0);
    }
    return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return sim_open(p, f, m); }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return sim_open(p, f, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return d == AT_FDCWD ? sim_open(p, f, m) : syscall(SYS_openat, d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return d == AT_FDCWD ? sim_open(p, f, m) : syscall(SYS_openat, d, p, f, m); }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    init();
    for (size_t i = 0; i < n; i++) { seed = seed * 6364136223846793005UL + 1442695040888963407UL; ((char *)b)[i] = seed >> 33; }
    return n;
}
