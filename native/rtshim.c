/* LD_PRELOAD monitor and fault injector for the tool under test.
 *
 * Watches operations on files below RTSHIM_ROOT (absolute path) and on standard output, and appends one line
 * per event to the file RTSHIM_LOG:   <n> <op> <path> <result or -errno> <note>
 * (the note of a write begins with t: and the first bytes written)
 * Only operations that would have an effect are numbered (n >= 1): these are the fault points.
 *
 * RTSHIM_FAIL=n:errno   the n-th numbered operation fails with errno (the real call is not made);
 *                       with RTSHIM_PARTIAL=1 a write is first carried out for half of its bytes by an earlier call
 * RTSHIM_SHORT=seed     reads and writes are cut short at random, and interrupted (EINTR) at random
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 256
static char *fdpath[MAXFD];
static int logfd = -1, inited;
static long counter, fail_at = -1;
static int fail_errno;
static const char *root;
static size_t rootlen;
static unsigned long long rng;
static int short_mode;

static void init(void)
{
    if (inited) return;
    inited = 1;
    const char *s = getenv("RTSHIM_LOG");
    if (s) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) {      /* out of the way of the tool's own descriptors */
            logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 200);
            syscall(SYS_close, fd);
        }
    }
    root = getenv("RTSHIM_ROOT");
    rootlen = root ? strlen(root) : 0;
    s = getenv("RTSHIM_FAIL");
    if (s) sscanf(s, "%ld:%d", &fail_at, &fail_errno);
    s = getenv("RTSHIM_SHORT");
    if (s) { short_mode = 1; rng = strtoull(s, 0, 10) * 2654435761u + 88172645463325252ull; }
}

static unsigned rnd(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return (unsigned)(rng >> 11);
}

static void note(long n, const char *op, const char *path, long res, const char *extra)
{
    char b[PATH_MAX + 200];
    if (logfd < 0) return;
    int k = snprintf(b, sizeof b, "%ld\t%s\t%s\t%ld\t%s\n", n, op, path, res, extra ? extra : "");
    if (k > 0) syscall(SYS_write, logfd, b, (size_t)k < sizeof b ? (size_t)k : sizeof b - 1);
}

/* absolute, lexically cleaned path, or NULL if not below the root */
static int watched(const char *path, char *out)
{
    char tmp[2 * PATH_MAX];
    if (!rootlen || !path) return 0;
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
    }
    size_t o = 0;
    for (char *p = tmp; *p;) {
        while (*p == '/') p++;
        char *e = p;
        while (*e && *e != '/') e++;
        size_t l = e - p;
        if (!l) break;
        if (l == 1 && p[0] == '.') { p = e; continue; }
        if (l == 2 && p[0] == '.' && p[1] == '.') { while (o > 0 && out[--o] != '/'); p = e; continue; }
        if (o + l + 2 > PATH_MAX) return 0;
        out[o++] = '/';
        memcpy(out + o, p, l);
        o += l;
        p = e;
    }
    out[o] = 0;
    return !strncmp(out, root, rootlen) && (out[rootlen] == '/' || out[rootlen] == 0);
}

/* number an operation; 1 if it has to fail */
static int point(long *n)
{
    *n = ++counter;
    return counter == fail_at;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char abs[PATH_MAX];
    long n = 0;
    init();
    if (dirfd != AT_FDCWD && path && path[0] != '/')
        return syscall(SYS_openat, dirfd, path, flags, mode);
    int w = watched(path, abs);
    const char *op = (flags & O_ACCMODE) == O_RDONLY ? "open_read" : "open_write";
    if (w && !(flags & O_DIRECTORY)) {
        /* an open that fails anyway is no fault point, but is logged */
        struct stat st;
        int exists = syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) == 0;
        if (exists || (flags & O_CREAT)) {
            if (short_mode && rnd() % 4 == 0) { note(0, op, abs, -EINTR, "interrupted"); errno = EINTR; return -1; }
            if (point(&n)) { note(n, op, abs, -fail_errno, "injected"); errno = fail_errno; return -1; }
        }
    }
    long fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (w && !(flags & O_DIRECTORY)) {
        note(n, op, abs, fd < 0 ? -errno : fd, "");
        if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(abs); }
    }
    return fd;
}

#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }

int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
    if (fd == logfd && fd >= 0) return 0;
    return syscall(SYS_close, fd);
}

static const char *pathof(int fd)
{
    init();
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) return fdpath[fd];
    if (fd == 1) return "<stdout>";
    return 0;
}

ssize_t read(int fd, void *buf, size_t len)
{
    const char *p = pathof(fd);
    long n = 0;
    if (!p || fd == 1) return syscall(SYS_read, fd, buf, len);
    if (short_mode) {
        if (rnd() % 5 == 0) { note(0, "read", p, -EINTR, "interrupted"); errno = EINTR; return -1; }
        if (len > 1) len = rnd() % 3 ? 1 + rnd() % (len < 12 ? len : 12) : 1 + rnd() % len;
        long k = syscall(SYS_read, fd, buf, len);
        note(0, "read", p, k, "short");
        return k;
    }
    if (point(&n)) { note(n, "read", p, -fail_errno, "injected"); errno = fail_errno; return -1; }
    long k = syscall(SYS_read, fd, buf, len);
    note(n, "read", p, k < 0 ? -errno : k, "");
    return k;
}

/* the first bytes of what is written, to tell fault points apart */
static const char *head(const void *buf, size_t len)
{
    static char b[64];
    const unsigned char *p = buf;
    size_t i, o = 0;
    b[o++] = 't'; b[o++] = ':';
    for (i = 0; i < len && i < 50; i++) b[o++] = p[i] == '\n' ? '~' : p[i] < ' ' || p[i] > 126 ? '.' : p[i];
    b[o] = 0;
    return b;
}

ssize_t write(int fd, const void *buf, size_t len)
{
    const char *p = pathof(fd);
    long n = 0;
    if (!p || len == 0) return syscall(SYS_write, fd, buf, len);
    if (short_mode) {
        if (rnd() % 5 == 0) { note(0, "write", p, -EINTR, "interrupted"); errno = EINTR; return -1; }
        if (len > 1) len = rnd() % 3 ? 1 + rnd() % (len < 40 ? len : 40) : 1 + rnd() % len;
        long k = syscall(SYS_write, fd, buf, len);
        note(0, "write", p, k, "short");
        return k;
    }
    if (point(&n)) { note(n, "write", p, -fail_errno, "injected"); errno = fail_errno; return -1; }
    long k = syscall(SYS_write, fd, buf, len);
    note(n, "write", p, k < 0 ? -errno : k, head(buf, len));
    return k;
}

ssize_t writev(int fd, const struct iovec *v, int cnt)
{
    const char *p = pathof(fd);
    long n = 0;
    size_t len = 0;
    for (int i = 0; i < cnt; i++) len += v[i].iov_len;
    if (!p || len == 0) return syscall(SYS_writev, fd, v, cnt);
    if (short_mode) {
        for (int i = 0; i < cnt; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    }
    if (point(&n)) { note(n, "write", p, -fail_errno, "injected"); errno = fail_errno; return -1; }
    long k = syscall(SYS_writev, fd, v, cnt);
    note(n, "write", p, k < 0 ? -errno : k, head(v[0].iov_base, v[0].iov_len));
    return k;
}

int mkdir(const char *path, mode_t mode)
{
    char abs[PATH_MAX], parent[PATH_MAX];
    long n = 0;
    init();
    int w = watched(path, abs);
    if (w) {
        struct stat st;
        snprintf(parent, sizeof parent, "%s", abs);
        char *s = strrchr(parent, '/');
        if (s && s != parent) *s = 0;
        if (syscall(SYS_newfstatat, AT_FDCWD, abs, &st, 0) != 0 && syscall(SYS_newfstatat, AT_FDCWD, parent, &st, 0) == 0 && S_ISDIR(st.st_mode)) {
            if (point(&n)) { note(n, "mkdir", abs, -fail_errno, "injected"); errno = fail_errno; return -1; }
        }
    }
    long k = syscall(SYS_mkdirat, AT_FDCWD, path, mode);
    if (w) note(n, "mkdir", abs, k < 0 ? -errno : k, "");
    return k;
}

DIR *opendir(const char *path)
{
    static DIR *(*real)(const char *);
    char abs[PATH_MAX];
    long n = 0;
    init();
    if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    int w = watched(path, abs);
    if (w) {
        struct stat st;
        if (syscall(SYS_newfstatat, AT_FDCWD, abs, &st, 0) == 0 && S_ISDIR(st.st_mode) && point(&n)) {
            note(n, "opendir", abs, -fail_errno, "injected");
            errno = fail_errno;
            return 0;
        }
    }
    DIR *d = real(path);
    if (w) note(n, "opendir", abs, d ? 0 : -errno, "");
    return d;
}

static long unlinked(const char *op, const char *path, long k)
{
    char abs[PATH_MAX];
    init();
    int e = errno;
    if (watched(path, abs)) note(0, op, abs, k < 0 ? -e : k, "");
    errno = e;
    return k;
}
int unlink(const char *p) { return unlinked("unlink", p, syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int rmdir(const char *p) { return unlinked("rmdir", p, syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int rename(const char *a, const char *b)
{
    long k = syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    unlinked("rename_from", a, k);
    return unlinked("rename_to", b, k);
}
