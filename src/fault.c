/* LD_PRELOAD shim: numbers the file system operations a process performs below VF_FAULT_DIR and makes one of them fail,
 * or ends the process at that point.
 *   VF_FAULT_DIR  directory that is watched (absolute, with trailing slash)
 *   VF_FAULT_AT   number of the operation (1..), 0: only count
 *   VF_FAULT_MODE error:<errno> | kill-before | kill-after | torn (half of a write, then kill) | short:<errno> (half of a write, then errno for good)
 *   VF_FAULT_LOG  file that receives one line per operation
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int n, fd_watched[4096], sticky;
static const char *dir, *mode, *logf;
static int at = -1;

static void init(void)
{
	if (at >= 0) return;
	dir = getenv("VF_FAULT_DIR");
	mode = getenv("VF_FAULT_MODE");
	logf = getenv("VF_FAULT_LOG");
	const char *a = getenv("VF_FAULT_AT");
	at = a ? atoi(a) : 0;
}

static int below(const char *p)
{
	init();
	return dir && p && strncmp(p, dir, strlen(dir)) == 0;
}

static void note(const char *op, const char *p, long len)
{
	if (!logf) return;
	char b[600];
	int k = snprintf(b, sizeof b, "%d %s %s %ld\n", n, op, p ? p : "-", len);
	int f = syscall(SYS_openat, AT_FDCWD, logf, O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (f >= 0) { syscall(SYS_write, f, b, k); syscall(SYS_close, f); }
}

static void die(void)
{
	kill(getpid(), SIGKILL);
	for (;;) pause();
}

/* 0: go on; 1: fail with errno set; 2: go on and die afterwards; 3: half, then die; 4: half, then errno */
static int op(const char *what, const char *p, long len)
{
	++n;
	note(what, p, len);
	if (!at || n != at || !mode) return 0;
	if (!strncmp(mode, "error:", 6)) { errno = atoi(mode + 6); return 1; }
	if (!strcmp(mode, "kill-before")) die();
	if (!strcmp(mode, "kill-after")) return 2;
	if (!strcmp(mode, "torn")) return 3;
	if (!strncmp(mode, "short:", 6)) return 4;
	return 0;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
static void watch(int fd) { if (fd >= 0 && fd < 4096) fd_watched[fd] = 1; }
static int watched(int fd) { return fd >= 0 && fd < 4096 && fd_watched[fd]; }

static int wr(const char *m) { return m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')); }

#define FOPEN(name) \
FILE *name(const char *p, const char *m) \
{ \
	REAL(FILE *, name, const char *, const char *); \
	if (!below(p) || !wr(m)) return real(p, m); \
	int k = op("open", p, 0); \
	if (k == 1) return 0; \
	if (k == 4) { errno = EIO; return 0; } \
	FILE *f = real(p, m); \
	if (k) die(); \
	if (f) watch(fileno(f)); \
	return f; \
}
FOPEN(fopen)
FOPEN(fopen64)

#define OPEN(name) \
int name(const char *p, int fl, ...) \
{ \
	va_list ap; va_start(ap, fl); int md = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
	REAL(int, name, const char *, int, ...); \
	if (!below(p) || (fl & O_ACCMODE) == O_RDONLY) return real(p, fl, md); \
	int k = op("open", p, 0); \
	if (k == 1) return -1; \
	if (k == 4) { errno = EIO; return -1; } \
	int f = real(p, fl, md); \
	if (k) die(); \
	watch(f); \
	return f; \
}
OPEN(open)
OPEN(open64)

static ssize_t do_write(int fd, const void *b, size_t len, ssize_t (*real)(int, const void *, size_t))
{
	if (sticky) { errno = sticky; return -1; }
	int k = op("write", 0, len);
	if (k == 1) { sticky = errno; return -1; }
	if (k == 3) { real(fd, b, len / 2); die(); }
	if (k == 4) { sticky = atoi(mode + 6); return real(fd, b, len / 2 ? len / 2 : 1); }
	ssize_t r = real(fd, b, len);
	if (k == 2) die();
	return r;
}

ssize_t write(int fd, const void *b, size_t len)
{
	REAL(ssize_t, write, int, const void *, size_t);
	if (!watched(fd)) return real(fd, b, len);
	return do_write(fd, b, len, real);
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
	REAL(ssize_t, writev, int, const struct iovec *, int);
	if (!watched(fd)) return real(fd, v, c);
	size_t len = 0;
	for (int i = 0; i < c; ++i) len += v[i].iov_len;
	if (sticky) { errno = sticky; return -1; }
	int k = op("write", 0, len);
	if (k == 1) { sticky = errno; return -1; }
	if (k == 3 || k == 4) {
		char *all = malloc(len + 1), *q = all;
		for (int i = 0; i < c; ++i) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
		long r = syscall(SYS_write, fd, all, len / 2 ? len / 2 : 1);
		free(all);
		if (k == 3) die();
		sticky = atoi(mode + 6);
		return r;
	}
	ssize_t r = real(fd, v, c);
	if (k == 2) die();
	return r;
}

int fclose(FILE *f)
{
	REAL(int, fclose, FILE *);
	int fd = f ? fileno(f) : -1;
	if (!watched(fd)) return real(f);
	fd_watched[fd] = 0;
	int k = op("close", 0, 0);
	int r = real(f);
	if (k >= 2 && k != 4) die();
	if (k) { if (k == 4) errno = EIO; return EOF; }
	return r;
}

int close(int fd)
{
	REAL(int, close, int);
	if (!watched(fd)) return real(fd);
	fd_watched[fd] = 0;
	int k = op("close", 0, 0);
	int r = real(fd);
	if (k >= 2 && k != 4) die();
	if (k) { if (k == 4) errno = EIO; return -1; }
	return r;
}

int mkdir(const char *p, mode_t m)
{
	REAL(int, mkdir, const char *, mode_t);
	if (!below(p)) return real(p, m);
	int k = op("mkdir", p, 0);
	if (k == 1 || k == 4) { if (k == 4) errno = EIO; return -1; }
	int r = real(p, m);
	if (k) die();
	return r;
}

int rename(const char *a, const char *b)
{
	REAL(int, rename, const char *, const char *);
	if (!below(a) && !below(b)) return real(a, b);
	int k = op("rename", b, 0);
	if (k == 1 || k == 4) { if (k == 4) errno = EIO; return -1; }
	int r = real(a, b);
	if (k) die();
	return r;
}

int unlink(const char *p)
{
	REAL(int, unlink, const char *);
	if (!below(p)) return real(p);
	int k = op("unlink", p, 0);
	if (k == 1 || k == 4) { if (k == 4) errno = EIO; return -1; }
	int r = real(p);
	if (k) die();
	return r;
}
