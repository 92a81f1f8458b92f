// Fails, shortens or ends chosen I/O calls of one process, by path and number.
// SHIM="op:path-part:nth:action[,op:path-part:nth:action...]", counted from 1, nth 0 = every.
// op: open read write fsync rename unlink; path-part of descriptors 0 and 1: <stdin> <stdout>.
// action: e<errno> (fail), s<bytes> (short transfer), k (exit at once, as when killed), z (0 bytes).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
struct rule { char op[16], part[128]; int nth, count; char act; long arg; };
static struct rule rules[32];
static int nrules = -1;
static char paths[1024][256];
static void init(void) {
    if (nrules >= 0) return;
    nrules = 0;
    strcpy(paths[0], "<stdin>");
    strcpy(paths[1], "<stdout>");
    const char *e = getenv("SHIM");
    if (!e) return;
    char *d = strdup(e), *save = 0;
    for (char *p = strtok_r(d, ",", &save); p; p = strtok_r(0, ",", &save)) {
        struct rule *r = &rules[nrules];
        char act[32] = "";
        if (sscanf(p, "%15[^:]:%127[^:]:%d:%31s", r->op, r->part, &r->nth, act) == 4) {
            r->act = act[0];
            r->arg = atol(act + 1);
            nrules++;
        }
    }
}
static struct rule *hit(const char *op, const char *path) {
    init();
    struct rule *got = 0;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (strcmp(r->op, op) || !strstr(path, r->part)) continue;
        int c = __sync_add_and_fetch(&r->count, 1);
        if (!r->nth || r->nth == c) got = r;
    }
    if (got && got->act == 'k') _exit(137);
    return got;
}
static const char *name(int fd) { init(); return fd >= 0 && fd < 1024 ? paths[fd] : ""; }
#define REAL(f) static __typeof__(&f) real; if (!real) real = dlsym(RTLD_NEXT, #f)
static int opened(int fd, const char *p) {
    if (fd >= 0 && fd < 1024) snprintf(paths[fd], sizeof paths[fd], "%s", p);
    return fd;
}
#define OPENER(f) \
int f(const char *p, int fl, ...) { \
    REAL(f); va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    struct rule *r = hit("open", p); if (r && r->act == 'e') { errno = r->arg; return -1; } \
    return opened(real(p, fl, m), p); }
OPENER(open)
OPENER(open64)
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    struct rule *r = hit("read", name(fd));
    if (r && r->act == 'e') { errno = r->arg; return -1; }
    if (r && r->act == 'z') return 0;
    if (r && r->act == 's' && n > (size_t)r->arg) n = r->arg;
    return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    struct rule *r = hit("write", name(fd));
    if (r && r->act == 'e') { errno = r->arg; return -1; }
    if (r && r->act == 'z') return 0;
    if (r && r->act == 's' && n > (size_t)r->arg) n = r->arg;
    return real(fd, b, n);
}
int fsync(int fd) {
    REAL(fsync);
    struct rule *r = hit("fsync", name(fd));
    if (r && r->act == 'e') { errno = r->arg; return -1; }
    return real(fd);
}
int rename(const char *a, const char *b) {
    REAL(rename);
    struct rule *r = hit("rename", b);
    if (r && r->act == 'e') { errno = r->arg; return -1; }
    return real(a, b);
}
