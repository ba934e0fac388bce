/* fsim: libc-level file-system seam (LD_PRELOAD).
 *
 * Every file operation of the process (Python, sqlite, HDF5, libgfortran) and
 * of its sequential helper processes (rm, cp, sed ...) that touches a path
 * below the scratch root goes through here.  While armed, operations are
 * numbered, recorded and may be made to fail, be shortened, be torn, or to
 * kill the process.  Destructive operations outside the scratch root are
 * refused and recorded ("escape").
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum { K_CREATE, K_WRITE, K_TRUNC, K_SYNC, K_RENAME, K_UNLINK, K_RMDIR,
       K_MKDIR, K_LINK, K_CLOSEW, K_META, K_OPENR, K_READ, K_STAT, NK };

enum { A_NONE, A_ERR, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN_CRASH,
       A_SIGNAL, A_BUDGET, A_APPEND, A_PARTIAL_ERR };

#define NRULE 16
struct rule {
    uint32_t active, mask;      /* mask of kinds */
    uint64_t at, seen;          /* fires when seen==at (0-based) */
    uint32_t action, persistent;
    int64_t arg;                /* errno, bytes, permille or signal */
    int64_t arg2;
    uint64_t fired;
    char sub[120];              /* substring the path must contain */
    char appfile[400];          /* A_APPEND: script file, see do_append */
};
struct ctl {
    uint32_t magic, armed, logon, datalog;
    int32_t owner, crashed, in_hook, pad;
    uint64_t nmut, nread, nescape, nkill;
    int64_t budget;             /* remaining bytes on "disk", <0 unlimited */
    uint64_t budget_hits;
    uint64_t kcount[16];
    uint64_t kfault[16];
    char root[512];
    char root2[512];            /* second allowed root (no counting) */
    char logfn[512];
    char escape[1024];
    struct rule rule[NRULE];
};
static struct ctl *C;
static int childreads;          /* reads of helper processes count as well */
#define READER (childreads || C->owner == (int)RAW(SYS_getpid))
static int have_abs_real;

#define RAW(n, ...) syscall(n, ##__VA_ARGS__)

__attribute__((visibility("default"))) int fsim_attach(const char *fn)
{
    int fd = RAW(SYS_openat, AT_FDCWD, fn, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return -1;
    void *p = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    RAW(SYS_close, fd);
    if (p == MAP_FAILED) return -1;
    C = p;
    if (C->magic != 0x51f5) { C = 0; return -2; }
    return 0;
}
__attribute__((visibility("default"))) int fsim_size(void) { return sizeof(struct ctl); }
__attribute__((visibility("default"))) void fsim_detach(void) { C = 0; }
__attribute__((visibility("default"))) void fsim_childreads(int on) { childreads = on; }

static int vt_on; static void vt_init(void);
__attribute__((constructor)) static void init(void)
{
    const char *e = getenv("FSIM_CTL");
    if (e && *e) { fsim_attach(e); }
    childreads = getenv("FSIM_CHILDREADS") != 0;
    vt_init();
}

/* absolute, lexically normalised path of (dfd, path) */
static const char *abspath(int dfd, const char *path, char *buf)
{
    char tmp[PATH_MAX * 2];
    if (!path) return 0;
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char cw[PATH_MAX];
        if (dfd == AT_FDCWD) {
            long n = RAW(SYS_getcwd, cw, sizeof cw);
            if (n <= 0) return 0;
        } else {
            char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", dfd);
            long n = RAW(SYS_readlinkat, AT_FDCWD, pp, cw, sizeof cw - 1);
            if (n <= 0) return 0;
            cw[n] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", cw, path);
    }
    /* normalise */
    char *o = buf; const char *p = tmp;
    *o = 0;
    while (*p) {
        while (*p == '/') p++;
        const char *q = p; while (*q && *q != '/') q++;
        size_t n = q - p;
        if (n == 0) break;
        if (n == 1 && p[0] == '.') ;
        else if (n == 2 && p[0] == '.' && p[1] == '.') {
            while (o > buf && *--o != '/') ; *o = 0;
        } else {
            if (o - buf + n + 2 > PATH_MAX) return 0;
            *o++ = '/'; memcpy(o, p, n); o += n; *o = 0;
        }
        p = q;
    }
    if (o == buf) strcpy(buf, "/");
    return buf;
}
static const char *fdpath(int fd, char *buf)
{
    char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", fd);
    int sv = errno;
    long n = RAW(SYS_readlinkat, AT_FDCWD, pp, buf, PATH_MAX - 1);
    errno = sv;
    if (n <= 0) return 0;
    buf[n] = 0;
    return buf[0] == '/' ? buf : 0;
}
static int under(const char *p, const char *root)
{
    size_t n = strlen(root);
    return n && !strncmp(p, root, n) && (p[n] == 0 || p[n] == '/');
}
static int watched(const char *p) { return C && p && under(p, C->root); }
/* may a destructive operation touch this path? */
static int permitted(const char *p)
{
    if (!C || !C->armed || !p) return 1;
    if (under(p, C->root) || under(p, C->root2)) return 1;
    if (!strncmp(p, "/dev/", 5) && strncmp(p, "/dev/shm/", 9)) return 1;
    if (!strncmp(p, "/proc/self/", 11)) return 1;
    C->nescape++;
    if (!C->escape[0]) snprintf(C->escape, sizeof C->escape, "%s", p);
    return 0;
}

struct rec { uint32_t kind, fault; int64_t a, b, ret; uint32_t plen, dlen; };
static void logrec(uint32_t kind, uint32_t fault, const char *p, int64_t a, int64_t b,
                   int64_t ret, const void *d, size_t dlen)
{
    if (!C->logon) return;
    int sv = errno;
    struct rec r = { kind, fault, a, b, ret, 0, 0 };
    const char *rel = p + strlen(C->root);
    if (!under(p, C->root)) rel = p;
    r.plen = strlen(rel);
    r.dlen = C->datalog ? dlen : 0;
    int fd = RAW(SYS_openat, AT_FDCWD, C->logfn, O_WRONLY | O_APPEND | O_CLOEXEC | O_CREAT, 0666);
    if (fd >= 0) {
        struct iovec v[3] = {{&r, sizeof r}, {(void *)rel, r.plen}, {(void *)d, r.dlen}};
        RAW(SYS_writev, fd, v, r.dlen ? 3 : 2);
        RAW(SYS_close, fd);
    }
    errno = sv;
}

static void die(void)
{
    C->crashed = 1;
    C->nkill++;
    if (C->owner && C->owner != (int)RAW(SYS_getpid)) {
        RAW(SYS_kill, C->owner, SIGKILL);
    }
    RAW(SYS_exit_group, 137);
}

/* A_APPEND: another party (a running MD program) makes progress now.  The
 * appfile holds binary records: int64 src_off, int64 len, then two NUL padded
 * 400 byte names src, dst: copy src[src_off:src_off+len] to the end of dst.
 * rule.arg = record index to start at, rule.arg2 = number of records. */
struct app { int64_t off, len; char src[400], dst[400]; };
static void do_append(struct rule *r)
{
    int sv = errno;
    int fd = RAW(SYS_openat, AT_FDCWD, r->appfile, O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0) { errno = sv; return; }
    for (int64_t i = 0; i < r->arg2; i++) {
        struct app a;
        if (RAW(SYS_pread64, fd, &a, sizeof a, (r->arg + i) * (int64_t)sizeof a) != sizeof a) break;
        int s = RAW(SYS_openat, AT_FDCWD, a.src, O_RDONLY | O_CLOEXEC, 0);
        int d = RAW(SYS_openat, AT_FDCWD, a.dst, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        if (s >= 0 && d >= 0) {
            char buf[65536]; int64_t done = 0;
            while (done < a.len) {
                int64_t n = a.len - done; if (n > (int64_t)sizeof buf) n = sizeof buf;
                n = RAW(SYS_pread64, s, buf, n, a.off + done);
                if (n <= 0) break;
                RAW(SYS_write, d, buf, n);
                done += n;
            }
        }
        if (s >= 0) RAW(SYS_close, s);
        if (d >= 0) RAW(SYS_close, d);
    }
    RAW(SYS_close, fd);
    errno = sv;
}

/* Consult the rules for one operation.  Returns 0: go on normally; -1: fail
 * with *err; 1: shorten to *n bytes; 2: crash afterwards; 3: torn (write *n
 * bytes, then crash); 4: partial then error *err */
static int gate(uint32_t kind, const char *p, size_t len, int *err, size_t *n)
{
    int ret = 0;
    if (C->crashed) RAW(SYS_exit_group, 137);   /* helpers die with the node */
    C->kcount[kind]++;
    if (kind < K_OPENR) C->nmut++; else C->nread++;
    for (int i = 0; i < NRULE; i++) {
        struct rule *r = &C->rule[i];
        if (!r->active || !(r->mask & (1u << kind))) continue;
        if (r->sub[0] && !strstr(p + strlen(C->root), r->sub)) continue;
        uint64_t k = r->seen++;
        if (r->persistent ? k < r->at : k != r->at) continue;
        r->fired++;
        C->kfault[kind]++;
        switch (r->action) {
        case A_ERR: *err = r->arg; return -1;
        case A_SHORT:
            if (len > 1) { *n = 1 + (len - 1) * r->arg / 1000; if (*n >= len) *n = len - 1; ret = 1; }
            break;
        case A_PARTIAL_ERR:
            *err = r->arg2; *n = len * r->arg / 1000; ret = 4; break;
        case A_CRASH_BEFORE:
            logrec(kind, A_CRASH_BEFORE, p, 0, 0, 0, 0, 0);
            die(); break;
        case A_CRASH_AFTER: ret = 2; break;
        case A_TORN_CRASH: *n = len * r->arg / 1000; ret = 3; break;
        case A_SIGNAL: RAW(SYS_kill, C->owner, (int)r->arg); break;
        case A_APPEND: do_append(r); break;
        case A_BUDGET: C->budget = r->arg; break;
        }
    }
    return ret;
}
#define ARMED(p) (C && C->armed && !C->in_hook && watched(p))

static int simple(uint32_t kind, const char *p, int *err)
{   /* returns gate for non-data ops */
    size_t n = 0;
    int g = gate(kind, p, 0, err, &n);
    if (g == 3) { die(); }
    if (g == 4) g = -1;
    if (C->budget == 0 && (kind == K_CREATE || kind == K_MKDIR) && g == 0) {
        /* a full disk has no room for new directory entries either */
        C->budget_hits++; C->kfault[kind]++; *err = ENOSPC; return -1;
    }
    return g;
}

/* ------------------------------------------------------------------ open */
static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
    if (C && C->armed) {
        char b[PATH_MAX]; const char *p = abspath(dfd, path, b);
        int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
        if (wr && (flags & (O_DIRECTORY)) && !((flags & O_TMPFILE) == O_TMPFILE)) wr = 0;
        if (wr && !permitted(p)) { errno = EACCES; return -1; }
        if (ARMED(p)) {
            int err = 0, g;
            if (wr) {
                struct stat st;
                int existed = !RAW(SYS_newfstatat, AT_FDCWD, p, &st, 0);
                int eff = (!existed && (flags & O_CREAT)) || (existed && (flags & O_TRUNC) && st.st_size > 0);
                if (!eff) return RAW(SYS_openat, dfd, path, flags, mode);
                uint32_t kind = existed ? K_TRUNC : K_CREATE;
                g = simple(kind, p, &err);
                if (g == -1) { logrec(kind, A_ERR, p, 0, 0, -err, 0, 0); errno = err; return -1; }
                int fd = RAW(SYS_openat, dfd, path, flags, mode);
                logrec(kind, g, p, 0, 0, fd < 0 ? -errno : 0, 0, 0);
                if (g == 2) die();
                return fd;
            }
            if (READER) {
                g = simple(K_OPENR, p, &err);
                if (g == -1) { logrec(K_OPENR, A_ERR, p, 0, 0, -err, 0, 0); errno = err; return -1; }
                int fd = RAW(SYS_openat, dfd, path, flags, mode);
                logrec(K_OPENR, g, p, 0, 0, fd < 0 ? -errno : 0, 0, 0);
                if (g == 2) die();
                return fd;
            }
        }
    }
    return RAW(SYS_openat, dfd, path, flags, mode);
}
#define GETMODE mode_t mode = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }
int __openat_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return do_open(d, path, flags | O_LARGEFILE, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, m); }

/* ----------------------------------------------------------------- write */
static int64_t raw_vec_write(int fd, const void *buf, size_t len, int64_t off)
{
    return off < 0 ? RAW(SYS_write, fd, buf, len) : RAW(SYS_pwrite64, fd, buf, len, off);
}
static int64_t do_write(int fd, const void *buf, size_t len, int64_t off)
{
    char b[PATH_MAX]; const char *p;
    if (C && C->armed && (p = fdpath(fd, b)) && ARMED(p)) {
        int err = 0; size_t n = len;
        int64_t pos = off;
        if (pos < 0) {
            int fl = RAW(SYS_fcntl, fd, F_GETFL);
            pos = (fl & O_APPEND) ? RAW(SYS_lseek, fd, 0, SEEK_END) : RAW(SYS_lseek, fd, 0, SEEK_CUR);
        }
        int g = gate(K_WRITE, p, len, &err, &n);
        if (g == -1) { logrec(K_WRITE, A_ERR, p, pos, len, -err, 0, 0); errno = err; return -1; }
        size_t want = (g == 1 || g == 3 || g == 4) ? n : len;
        if (C->budget >= 0 && want) {
            struct stat st; int64_t grow = want;
            if (!RAW(SYS_fstat, fd, &st)) { /* overwriting needs no new space */
                grow = pos + (int64_t)want - st.st_size; if (grow < 0) grow = 0;
            }
            if (grow > C->budget) {
                int64_t can = (int64_t)want - (grow - C->budget);
                C->budget_hits++; C->kfault[K_WRITE]++;
                if (can <= 0) { logrec(K_WRITE, A_ERR, p, pos, len, -ENOSPC, 0, 0); errno = ENOSPC; return -1; }
                grow = C->budget; want = can;
            }
            C->budget -= grow;
        }
        int64_t r = want || !len ? raw_vec_write(fd, buf, want, off) : 0;
        logrec(K_WRITE, g, p, pos, len, r, buf, r > 0 ? r : 0);
        if (g == 2 || g == 3) die();
        if (g == 4) { errno = err; return -1; }
        return r;
    }
    return raw_vec_write(fd, buf, len, off);
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return do_write(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    char b[PATH_MAX]; const char *p;
    if (C && C->armed && c > 0 && (p = fdpath(fd, b)) && ARMED(p)) {
        size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
        char *t = malloc(tot + 1); size_t o = 0;
        for (int i = 0; i < c; i++) { memcpy(t + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
        ssize_t r = do_write(fd, t, tot, -1);
        free(t); return r;
    }
    return RAW(SYS_writev, fd, v, c);
}
/* in-kernel copies: make the callers fall back to read/write so that the data
 * path is visible */
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    char b[PATH_MAX]; const char *p;
    if (C && C->armed && (p = fdpath(o, b)) && ARMED(p)) {
        char buf[65536]; if (n > sizeof buf) n = sizeof buf;
        ssize_t r = off ? RAW(SYS_pread64, i, buf, n, *off) : RAW(SYS_read, i, buf, n);
        if (r <= 0) return r;
        ssize_t w = do_write(o, buf, r, -1);
        if (w > 0 && off) *off += w;
        else if (!off && w < r) RAW(SYS_lseek, i, (w > 0 ? w : 0) - r, SEEK_CUR);
        return w;
    }
    return RAW(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f)
{
    char b[PATH_MAX]; const char *p;
    if (C && C->armed && (p = fdpath(o, b)) && ARMED(p)) { errno = EXDEV; return -1; }
    return RAW(SYS_copy_file_range, i, oi, o, oo, n, f);
}

/* ------------------------------------------------------------------ read */
static int64_t do_read(int fd, void *buf, size_t len, int64_t off)
{
    char b[PATH_MAX]; const char *p;
    if (C && C->armed && len && READER && (p = fdpath(fd, b)) && ARMED(p)) {
        int err = 0; size_t n = len;
        int g = gate(K_READ, p, len, &err, &n);
        if (g == -1 || g == 4) { logrec(K_READ, A_ERR, p, 0, 0, -err, 0, 0); errno = err; return -1; }
        if (g == 1) len = n;
        if (g >= 2) die();
    }
    return off < 0 ? RAW(SYS_read, fd, buf, len) : RAW(SYS_pread64, fd, buf, len, off);
}
ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, -1); }
ssize_t __read_chk(int fd, void *buf, size_t n, size_t bl) { return do_read(fd, buf, n, -1); }
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return do_read(fd, buf, n, o); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { return do_read(fd, buf, n, o); }

/* ----------------------------------------------------------------- close */
int close(int fd)
{
    char b[PATH_MAX]; const char *p;
    if (C && C->armed && fd > 2 && (p = fdpath(fd, b)) && ARMED(p)) {
        int fl = RAW(SYS_fcntl, fd, F_GETFL);
        if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) {
            int err = 0, g = simple(K_CLOSEW, p, &err);
            int r = RAW(SYS_close, fd);
            logrec(K_CLOSEW, g < 0 ? A_ERR : g, p, 0, 0, g < 0 ? -err : r, 0, 0);
            if (g == -1) { errno = err; return -1; }
            if (g == 2) die();
            return r;
        }
    }
    return RAW(SYS_close, fd);
}

#define FDOP(kind, call) \
    char b[PATH_MAX]; const char *p; \
    if (C && C->armed && (p = fdpath(fd, b)) && ARMED(p)) { \
        int err = 0, g = simple(kind, p, &err); \
        if (g == -1) { logrec(kind, A_ERR, p, A1, 0, -err, 0, 0); errno = err; return -1; } \
        int r = call; logrec(kind, g, p, A1, 0, r < 0 ? -errno : r, 0, 0); \
        if (g == 2) die(); return r; } \
    return call;
#define A1 0
int fsync(int fd) { FDOP(K_SYNC, RAW(SYS_fsync, fd)) }
int fdatasync(int fd) { FDOP(K_SYNC, RAW(SYS_fdatasync, fd)) }
#undef A1
#define A1 len
int ftruncate(int fd, off_t len) { FDOP(K_TRUNC, RAW(SYS_ftruncate, fd, len)) }
int ftruncate64(int fd, off64_t len) { FDOP(K_TRUNC, RAW(SYS_ftruncate, fd, len)) }
#undef A1

#define PATHOP(kind, dfd, path, call) \
    char b[PATH_MAX]; const char *p; \
    if (C && C->armed && (p = abspath(dfd, path, b))) { \
        if (!permitted(p)) { errno = EACCES; return -1; } \
        if (ARMED(p)) { int err = 0, g = simple(kind, p, &err); \
            if (g == -1) { logrec(kind, A_ERR, p, 0, 0, -err, 0, 0); errno = err; return -1; } \
            int r = call; int sv = errno; logrec(kind, g, p, 0, 0, r < 0 ? -sv : r, 0, 0); \
            if (g == 2) die(); errno = sv; return r; } } \
    return call;
int truncate(const char *path, off_t len) { PATHOP(K_TRUNC, AT_FDCWD, path, RAW(SYS_truncate, path, len)) }
int truncate64(const char *path, off64_t len) { PATHOP(K_TRUNC, AT_FDCWD, path, RAW(SYS_truncate, path, len)) }
int unlink(const char *path) { PATHOP(K_UNLINK, AT_FDCWD, path, RAW(SYS_unlinkat, AT_FDCWD, path, 0)) }
int unlinkat(int d, const char *path, int f) { PATHOP((f & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, d, path, RAW(SYS_unlinkat, d, path, f)) }
int remove(const char *path) {
    struct stat st;
    if (!RAW(SYS_newfstatat, AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW) && S_ISDIR(st.st_mode))
        return unlinkat(AT_FDCWD, path, AT_REMOVEDIR);
    return unlink(path); }
int rmdir(const char *path) { PATHOP(K_RMDIR, AT_FDCWD, path, RAW(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR)) }
int mkdir(const char *path, mode_t m) { PATHOP(K_MKDIR, AT_FDCWD, path, RAW(SYS_mkdirat, AT_FDCWD, path, m)) }
int mkdirat(int d, const char *path, mode_t m) { PATHOP(K_MKDIR, d, path, RAW(SYS_mkdirat, d, path, m)) }
int chmod(const char *path, mode_t m) { PATHOP(K_META, AT_FDCWD, path, RAW(SYS_fchmodat, AT_FDCWD, path, m)) }
int symlink(const char *t, const char *path) { PATHOP(K_LINK, AT_FDCWD, path, RAW(SYS_symlinkat, t, AT_FDCWD, path)) }
int symlinkat(const char *t, int d, const char *path) { PATHOP(K_LINK, d, path, RAW(SYS_symlinkat, t, d, path)) }
int link(const char *t, const char *path) { PATHOP(K_LINK, AT_FDCWD, path, RAW(SYS_linkat, AT_FDCWD, t, AT_FDCWD, path, 0)) }
int linkat(int d1, const char *t, int d, const char *path, int f) { PATHOP(K_LINK, d, path, RAW(SYS_linkat, d1, t, d, path, f)) }

static int do_rename(int d1, const char *o, int d2, const char *n, unsigned fl)
{
    if (C && C->armed) {
        char b[PATH_MAX], b2[PATH_MAX];
        const char *p = abspath(d1, o, b), *q = abspath(d2, n, b2);
        if (!permitted(p) || !permitted(q)) { errno = EACCES; return -1; }
        if (p && q && (ARMED(p) || ARMED(q))) {
            int err = 0, g = simple(K_RENAME, ARMED(p) ? p : q, &err);
            const char *rq = under(q, C->root) ? q + strlen(C->root) : q;
            if (g == -1) { logrec(K_RENAME, A_ERR, p, 0, 0, -err, 0, 0); errno = err; return -1; }
            int r = RAW(SYS_renameat2, d1, o, d2, n, fl); int sv = errno;
            int dl = C->datalog; C->datalog = 1;
            logrec(K_RENAME, g, p, 0, 0, r < 0 ? -sv : r, rq, strlen(rq));
            C->datalog = dl;
            if (g == 2) die(); errno = sv; return r;
        }
    }
    return RAW(SYS_renameat2, d1, o, d2, n, fl);
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int d1, const char *o, int d2, const char *n) { return do_rename(d1, o, d2, n, 0); }
int renameat2(int d1, const char *o, int d2, const char *n, unsigned f) { return do_rename(d1, o, d2, n, f); }

/* containment of kill(2): only this process group */
int kill(pid_t pid, int sig)
{
    if (C && C->armed && sig != 0 && pid != (int)RAW(SYS_getpid) && pid != C->owner) {
        /* own children only */
        char fn[64], buf[512]; snprintf(fn, sizeof fn, "/proc/%d/stat", pid);
        int ok = 0, fd = pid > 0 ? RAW(SYS_openat, AT_FDCWD, fn, O_RDONLY, 0) : -1;
        if (fd >= 0) {
            long n = RAW(SYS_read, fd, buf, sizeof buf - 1); RAW(SYS_close, fd);
            if (n > 0) { buf[n] = 0; char *q = strrchr(buf, ')'); int pp = 0; char st;
                if (q && sscanf(q + 1, " %c %d", &st, &pp) == 2 && (pp == (int)RAW(SYS_getpid) || pp == C->owner)) ok = 1; }
        }
        if (!ok) { C->nescape++; if (!C->escape[0]) snprintf(C->escape, sizeof C->escape, "kill %d", pid); errno = EPERM; return -1; }
    }
    return RAW(SYS_kill, pid, sig);
}
static void vt_init(void) { (void)vt_on; (void)have_abs_real; }
