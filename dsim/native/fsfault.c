/* LD_PRELOAD shim: file operations below DSIM_FS_ROOT are counted; one or more of them fail, write
 * short, or end the process, as listed in DSIM_FS_PLAN ("<n>:<kind>,..."), n counting from 0.
 * Everything outside the scratch directory is passed through and not counted. Kinds:
 *   enospc eio emfile : the operation fails with that error (open of a read-only file is not touched)
 *   eintr             : a write is interrupted by a signal before writing anything
 *   short             : a write writes about half of its bytes and reports that
 *   shorterr          : a write writes about half, and every later one fails with ENOSPC
 *   shortonce         : a write writes about half, and the next one fails with ENOSPC
 *   lost              : a close or fsync fails with EIO, and what was written is found to be lost (all but half of the file)
 *   crash             : the process ends before the operation
 *   crashafter        : the process ends after the operation
 *   tear              : a write writes about half, then the process ends
 * Each operation that is counted is appended to the file DSIM_FS_LOG as "<n> <operation> <fault or ->". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <limits.h>
#include <unistd.h>

#define MAXFD 4096
static char tracked[MAXFD];
static int counter, full, once;
static const char *root(void) { static const char *r; static int i; if (!i) { r = getenv("DSIM_FS_ROOT"); i = 1; } return r; }

static int inside(const char *path) {
    const char *r = root();
    char buf[PATH_MAX];
    if (!r || !path) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        if (snprintf(buf, sizeof buf, "%s/%s", cwd, path) >= (int)sizeof buf) return 0;
        path = buf;
    }
    return strncmp(path, r, strlen(r)) == 0 && strstr(path, "__pycache__") == NULL;
}

static const char *next_fault(const char *op) {
    static char kind[32];
    int n = counter++;
    const char *plan = getenv("DSIM_FS_PLAN"), *found = NULL;
    if (plan) {
        const char *p = plan;
        while (*p) {
            char *end;
            long k = strtol(p, &end, 10);
            if (*end == ':') {
                size_t len = strcspn(end + 1, ",");
                if (k == n && len < sizeof kind) { memcpy(kind, end + 1, len); kind[len] = 0; found = kind; }
                p = end + 1 + len;
            } else p = end;
            while (*p == ',') p++;
            if (p == end) break;
        }
    }
    const char *log = getenv("DSIM_FS_LOG");
    if (log) {
        int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) {
            char line[96];
            int len = snprintf(line, sizeof line, "%d %s %s\n", n, op, found ? found : "-");
            syscall(SYS_write, fd, line, (size_t)len);
            syscall(SYS_close, fd);
        }
    }
    return found;
}

static int common(const char *f, int *result) {
    if (!f) return 0;
    if (!strcmp(f, "crash")) _exit(137);
    if (!strcmp(f, "enospc")) { errno = ENOSPC; *result = -1; return 1; }
    if (!strcmp(f, "eio") || !strcmp(f, "lost")) { errno = EIO; *result = -1; return 1; }
    if (!strcmp(f, "emfile")) { errno = EMFILE; *result = -1; return 1; }
    return 0;
}
#define AFTER(f) do { if ((f) && !strcmp((f), "crashafter")) _exit(137); } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int in = writing && inside(path), res = -1;
    const char *f = in ? next_fault("open") : NULL;
    if (common(f, &res)) return res;
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = in;
    AFTER(f);
    return fd;
}
#define OPEN(name, hasdir) \
    int name(int dirfd, const char *path, int flags, ...) { mode_t mode = 0; va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); return do_open(dirfd, path, flags, mode); }
OPEN(openat, 1)
OPEN(openat64, 1)
int open(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static void halve(int fd) {
    off_t n = lseek(fd, 0, SEEK_END);
    if (n > 0 && syscall(SYS_ftruncate, fd, n / 2)) {}
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (fd < 0 || fd >= MAXFD || !tracked[fd]) return syscall(SYS_write, fd, buf, n);
    int res = -1;
    const char *f = next_fault("write");
    if (full || once) { once = 0; errno = ENOSPC; return -1; }
    if (common(f, &res)) return res;
    if (f && !strcmp(f, "eintr")) { errno = EINTR; return -1; }
    if (f && (!strcmp(f, "short") || !strcmp(f, "shorterr") || !strcmp(f, "shortonce") || !strcmp(f, "tear"))) {
        ssize_t w = syscall(SYS_write, fd, buf, n > 1 ? n / 2 : n);
        if (!strcmp(f, "tear")) _exit(137);
        if (!strcmp(f, "shorterr")) full = 1;
        if (!strcmp(f, "shortonce")) once = 1;
        return w;
    }
    ssize_t w = syscall(SYS_write, fd, buf, n);
    AFTER(f);
    return w;
}
int close(int fd) {
    if (fd < 0 || fd >= MAXFD || !tracked[fd]) return syscall(SYS_close, fd);
    int res = 0;
    const char *f = next_fault("close");
    tracked[fd] = 0;
    if (f && !strcmp(f, "lost")) halve(fd);
    if (common(f, &res)) { int e = errno; syscall(SYS_close, fd); errno = e; return res; }
    res = syscall(SYS_close, fd);
    AFTER(f);
    return res;
}
#define PATHOP(name, check, call) { int res = -1; const char *f = (check) ? next_fault(name) : NULL; if (common(f, &res)) return res; res = (call); AFTER(f); return res; }
int rename(const char *a, const char *b) PATHOP("rename", inside(a) || inside(b), syscall(SYS_rename, a, b))
int renameat(int da, const char *a, int db, const char *b) PATHOP("rename", inside(a) || inside(b), syscall(SYS_renameat2, da, a, db, b, 0))
int unlink(const char *a) PATHOP("unlink", inside(a), syscall(SYS_unlink, a))
int fsync(int fd) { if (fd >= 0 && fd < MAXFD && tracked[fd]) { const char *f; int res = -1; f = next_fault("fsync"); if (f && !strcmp(f, "lost")) halve(fd); if (common(f, &res)) return res; res = syscall(SYS_fsync, fd); AFTER(f); return res; } return syscall(SYS_fsync, fd); }
int fdatasync(int fd) PATHOP("fsync", fd >= 0 && fd < MAXFD && tracked[fd], syscall(SYS_fdatasync, fd))
int ftruncate(int fd, off_t n) PATHOP("ftruncate", fd >= 0 && fd < MAXFD && tracked[fd], syscall(SYS_ftruncate, fd, n))
int ftruncate64(int fd, off_t n) PATHOP("ftruncate", fd >= 0 && fd < MAXFD && tracked[fd], syscall(SYS_ftruncate, fd, n))
