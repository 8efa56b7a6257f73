/* The file seam of the Python world: every operation on a file of the
   simulated directory asks the controller, which decides the order, the
   faults and the crashes. Preloaded into the interpreter. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static int ctl = -1; /* socket to the controller, -1 when off */
static char root[512];
static char names[1024][64]; /* tracked descriptors */
static char tracked[1024];
static FILE *cookies[64]; static int cookie_fd[64];

#define REAL(r, n, ...) static r (*real_##n)(__VA_ARGS__); static inline void need_##n(void) { if (!real_##n) real_##n = dlsym(RTLD_NEXT, #n); }
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fopen64, const char *, const char *)
REAL(int, fclose, FILE *)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, close, int)
REAL(int, remove, const char *)
REAL(int, unlink, const char *)
REAL(int, rename, const char *, const char *)
REAL(FILE *, tmpfile, void)
REAL(int, mkstemp, char *)
REAL(int, fsync, int)
REAL(int, fileno, FILE *)

/* asks the controller; returns 0 to proceed, >0 an errno, and *lim a limit on the bytes */
static int ask(const char *op, const char *name, long n, long *lim)
{
    char b[256]; need_write(); need_read();
    int k = snprintf(b, sizeof b, "%s %s %ld\n", op, name, n), e = errno, err = 0;
    if (real_write(ctl, b, (size_t) k) != k) _exit(97);
    char r[64]; int m = 0;
    while (m < 63) { ssize_t c = real_read(ctl, r + m, 1); if (c <= 0) _exit(97); if (r[m] == '\n') break; ++m; }
    r[m] = 0; long l = -1; sscanf(r, "%d %ld", &err, &l); if (lim) *lim = l;
    errno = e; return err;
}
static const char *leaf(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static int ours(const char *p)
{
    if (ctl < 0) return 0;
    if (p[0] != '/') return 1;
    return strncmp(p, root, strlen(root)) == 0;
}
static void track(int fd, const char *p) { if (fd >= 0 && fd < 1024) { tracked[fd] = 1; snprintf(names[fd], sizeof names[fd], "%s", leaf(p)); } }
static int is_tracked(int fd) { return ctl >= 0 && fd >= 0 && fd < 1024 && tracked[fd]; }
void sim_activate(int fd, const char *dir) { ctl = fd; snprintf(root, sizeof root, "%s/", dir); }
void sim_pause(void) { if (ctl >= 0) ask("pause", "-", 0, NULL); }
void sim_off(void) { ctl = -1; }
int sim_open_files(void) { int n = 0; for (int i = 0; i < 1024; ++i) n += tracked[i]; return n; }

/* descriptors */
ssize_t read(int fd, void *b, size_t n)
{
    need_read(); long lim;
    if (!is_tracked(fd)) return real_read(fd, b, n);
    int e = ask("read", names[fd], (long) n, &lim); if (e) { errno = e; return -1; }
    if (lim >= 0 && (size_t) lim < n) n = (size_t) lim;
    return real_read(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    need_write(); long lim;
    if (!is_tracked(fd)) return real_write(fd, b, n);
    int e = ask("write", names[fd], (long) n, &lim);
    if (lim >= 0 && (size_t) lim < n) { n = (size_t) lim; if (e) { if (n) real_write(fd, b, n); errno = e; return -1; } }
    else if (e) { errno = e; return -1; }
    return real_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    need_writev(); if (!is_tracked(fd)) return real_writev(fd, v, c);
    size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
    char *b = malloc(n ? n : 1), *p = b; for (int i = 0; i < c; ++i) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
    ssize_t r = write(fd, b, n); int e = errno; free(b); errno = e; return r;
}
static int opened(const char *op, const char *p, int fl)
{
    int e = ask((fl & O_ACCMODE) == O_RDONLY ? "openr" : "openw", leaf(p), 0, NULL); (void) op;
    if (e) { errno = e; return -1; } return 0;
}
int open(const char *p, int fl, ...)
{
    need_open(); va_list a; va_start(a, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
    if (!ours(p)) return real_open(p, fl, mode);
    if (opened("open", p, fl)) return -1;
    int fd = real_open(p, fl, mode); track(fd, p); return fd;
}
int open64(const char *p, int fl, ...)
{
    va_list a; va_start(a, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a);
    return open(p, fl, mode);
}
int mkstemp(char *t)
{
    need_mkstemp(); if (!ours(t)) return real_mkstemp(t);
    if (opened("mkstemp", t, O_RDWR)) return -1;
    int fd = real_mkstemp(t); track(fd, "mkstemp"); return fd;
}
int close(int fd)
{
    need_close(); if (!is_tracked(fd)) return real_close(fd);
    int e = ask("close", names[fd], 0, NULL); tracked[fd] = 0;
    int r = real_close(fd); if (e) { errno = e; return -1; } return r;
}
int fsync(int fd)
{
    need_fsync(); if (!is_tracked(fd)) return real_fsync(fd);
    int e = ask("fsync", names[fd], 0, NULL); if (e) { errno = e; return -1; } return 0;
}
int remove(const char *p)
{
    need_remove(); if (!ours(p)) return real_remove(p);
    int e = ask("remove", leaf(p), 0, NULL); if (e) { errno = e; return -1; } return real_remove(p);
}
int unlink(const char *p)
{
    need_unlink(); if (!ours(p)) return real_unlink(p);
    int e = ask("remove", leaf(p), 0, NULL); if (e) { errno = e; return -1; } return real_unlink(p);
}
int rename(const char *p, const char *q)
{
    need_rename(); if (!ours(p) && !ours(q)) return real_rename(p, q);
    int e = ask("rename", leaf(q), 0, NULL); if (e) { errno = e; return -1; } return real_rename(p, q);
}
/* C streams: their buffers go through the seam as well */
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int) (long) c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    size_t k = 0; /* stdio goes on after a short write */
    while (k < n) { ssize_t r = write((int) (long) c, b + k, n - k); if (r <= 0) break; k += (size_t) r; }
    return (ssize_t) k;
}
static int ck_seek(void *c, off64_t *o, int w) { off_t r = lseek((int) (long) c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c)
{
    int fd = (int) (long) c; for (int i = 0; i < 64; ++i) if (cookies[i] && cookie_fd[i] == fd) cookies[i] = NULL;
    return close(fd);
}
static FILE *cookie(int fd, const char *m)
{
    cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
    FILE *s = fopencookie((void *) (long) fd, m, f);
    for (int i = 0; i < 64; ++i) if (!cookies[i]) { cookies[i] = s; cookie_fd[i] = fd; break; }
    return s;
}
static int flags(const char *m)
{
    int plus = strchr(m, '+') != NULL;
    if (m[0] == 'r') return plus ? O_RDWR : O_RDONLY;
    if (m[0] == 'w') return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
}
FILE *fopen(const char *p, const char *m)
{
    need_fopen(); if (!ours(p)) return real_fopen(p, m);
    int fd = open(p, flags(m), 0644); if (fd < 0) return NULL;
    return cookie(fd, m);
}
FILE *tmpfile(void)
{
    need_tmpfile(); need_open(); if (ctl < 0) return real_tmpfile();
    int e = ask("openw", "tmpfile", 0, NULL); if (e) { errno = e; return NULL; }
    int fd = real_open(root, O_TMPFILE | O_RDWR, 0600); if (fd < 0) return NULL;
    track(fd, "tmpfile"); return cookie(fd, "w+");
}
FILE *tmpfile64(void) { return tmpfile(); }
int fileno(FILE *f)
{
    need_fileno(); for (int i = 0; i < 64; ++i) if (f && cookies[i] == f) return cookie_fd[i];
    return real_fileno(f);
}
/* the C++ streams open with fopen64 and then use the descriptor */
FILE *fopen64(const char *p, const char *m)
{
    need_fopen64(); if (!ours(p)) return real_fopen64(p, m);
    if (opened("fopen", p, flags(m))) return NULL;
    FILE *f = real_fopen64(p, m); need_fileno(); if (f) track(real_fileno(f), p); return f;
}
int fclose(FILE *f)
{
    need_fclose(); need_fileno(); int fd = f && ctl >= 0 ? real_fileno(f) : -1;
    for (int i = 0; i < 64; ++i) if (f && cookies[i] == f) return real_fclose(f);
    if (fd >= 0 && is_tracked(fd)) { int e = ask("close", names[fd], 0, NULL); tracked[fd] = 0; int r = real_fclose(f); if (e) { errno = e; return EOF; } return r; }
    return real_fclose(f);
}
