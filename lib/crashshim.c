/* LD_PRELOAD shim: counts file system changing libc calls after arming; ends
 * the process before the N-th one (mode 0) or in the middle of it when it is a
 * write (mode 1: half of the bytes). Unarmed it only passes through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static long count = 0, target = -1, torn = 0, armed = 0;
static unsigned char kinds[1 << 16];

void vshim_arm(long n, long t) { count = 0; target = n; torn = t; armed = 1; }
long vshim_count(void) { armed = 0; return count; }
int vshim_kind(long n) { return kinds[n & 0xffff]; }
static void die(void) { syscall(SYS_exit_group, 99); }
/* returns 1 if this call has to be torn */
static int hit(int w) {
    if (!armed) return 0;
    count++;
    kinds[count & 0xffff] = w;
    if (count == target) { if (torn && w) return 1; die(); }
    return 0;
}
#define REAL(name) static __typeof__(&name) real = 0; if (!real) real = dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (fd > 2 && hit(n > 1)) { real(fd, b, n / 2); die(); } return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (hit(n > 1)) { real(fd, b, n / 2, o); die(); } return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (hit(n > 1)) { real(fd, b, n / 2, o); die(); } return real(fd, b, n, o); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(sendfile); if (hit(1)) { struct stat s; fstat(i, &s); real(o, i, p, s.st_size / 2); die(); } return real(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(sendfile64); if (hit(1)) { struct stat s; fstat(i, &s); real(o, i, p, s.st_size / 2); die(); } return real(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned f) { REAL(copy_file_range); if (hit(1)) { struct stat s; fstat(i, &s); real(i, pi, o, po, s.st_size / 2, f); die(); } return real(i, pi, o, po, n, f); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); hit(0); return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); hit(0); return real(d, p, m); }
int rename(const char *a, const char *b) { REAL(rename); hit(0); return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); hit(0); return real(x, a, y, b); }
int unlink(const char *a) { REAL(unlink); hit(0); return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); hit(0); return real(d, a, f); }
int rmdir(const char *a) { REAL(rmdir); hit(0); return real(a); }
int link(const char *a, const char *b) { REAL(link); hit(0); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); hit(0); return real(a, b); }
int ftruncate(int f, off_t n) { REAL(ftruncate); hit(0); return real(f, n); }
int ftruncate64(int f, off64_t n) { REAL(ftruncate64); hit(0); return real(f, n); }
int chmod(const char *p, mode_t m) { REAL(chmod); hit(0); return real(p, m); }
int fchmod(int f, mode_t m) { REAL(fchmod); hit(0); return real(f, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(fchmodat); hit(0); return real(d, p, m, f); }
#define CREAT(fl) ((fl) & (O_CREAT | O_TRUNC))
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } if (CREAT(fl)) hit(0)
int open(const char *p, int fl, ...) { REAL(open); MODE; return real(p, fl, m); }
int open64(const char *p, int fl, ...) { REAL(open64); MODE; return real(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { REAL(openat); MODE; return real(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { REAL(openat64); MODE; return real(d, p, fl, m); }
