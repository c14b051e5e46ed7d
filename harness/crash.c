/*
	Preloaded into a process: sees all calls which change files below $CRASH_DIR, logs them together with the
	state of the file $CRASH_WATCH right before and after each of them, and ends the process, sends a signal or
	lets the call fail when it comes to number $CRASH_AT.

	CRASH_MODE: "kill" (before the call), "half" (after half of a write), "int" (SIGINT before the call),
	or a number: the call fails with this errno.
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static int events;

static int below(const char* path) {
	const char* dir = getenv("CRASH_DIR");
	size_t l = dir ? strlen(dir) : 0;
	return l && !strncmp(path, dir, l) && (path[l] == '/' || !path[l]);
}

/* A path, made absolute */
static const char* absolute(int dirfd, const char* path, char* buffer) {
	char link[64];
	if (*path == '/') {
		snprintf(buffer, PATH_MAX, "%s", path);
		return buffer;
	}
	if (dirfd == AT_FDCWD)
		snprintf(link, sizeof(link), "/proc/self/cwd");
	else
		snprintf(link, sizeof(link), "/proc/self/fd/%d", dirfd);
	ssize_t n = syscall(SYS_readlink, link, buffer, PATH_MAX - 1);
	if (n < 0)
		n = 0;
	snprintf(buffer + n, PATH_MAX - n, "/%s", !strncmp(path, "./", 2) ? path + 2 : path);
	return buffer;
}

static const char* of_fd(int fd, char* buffer) {
	char link[64];
	snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
	ssize_t n = syscall(SYS_readlink, link, buffer, PATH_MAX - 1);
	buffer[n < 0 ? 0 : n] = '\0';
	return buffer;
}

/* What is in the watched file */
static uint64_t state(void) {
	const char* path = getenv("CRASH_WATCH");
	static unsigned char data[65536];
	uint64_t hash = 14695981039346656037ull;
	int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC);
	if (fd < 0)
		return 0;
	for (;;) {
		ssize_t n = syscall(SYS_read, fd, data, sizeof(data));
		if (n <= 0)
			break;
		for (ssize_t i = 0; i < n; i++)
			hash = (hash ^ data[i]) * 1099511628211ull;
	}
	syscall(SYS_close, fd);
	return hash;
}

static void record(const char* what, const char* path, uint64_t s) {
	const char* log = getenv("CRASH_LOG");
	char line[PATH_MAX + 100];
	int n = snprintf(line, sizeof(line), "%016llx %s %s\n", (unsigned long long)s, what, path);
	int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
	if (fd >= 0) {
		syscall(SYS_write, fd, line, n);
		syscall(SYS_close, fd);
	}
}

/* Returns 1 if only half of it should happen, -1 if the call must fail */
static int event(const char* what, const char* path) {
	if (!below(path))
		return 0;
	int e = errno;
	pthread_mutex_lock(&mutex);
	int n = events++;
	record(what, path, state());
	pthread_mutex_unlock(&mutex);
	const char* at = getenv("CRASH_AT");
	const char* mode = getenv("CRASH_MODE");
	errno = e;
	if (!at || !mode || atoi(at) != n)
		return 0;
	if (!strcmp(mode, "kill"))
		syscall(SYS_kill, getpid(), SIGKILL);
	if (!strcmp(mode, "int")) {
		syscall(SYS_kill, getpid(), SIGINT);
		return 0;
	}
	if (!strcmp(mode, "half"))
		return 1;
	errno = atoi(mode);
	return -1;
}

static void after(const char* path) {
	if (!below(path))
		return;
	int e = errno;
	pthread_mutex_lock(&mutex);
	record("after", path, state());
	pthread_mutex_unlock(&mutex);
	errno = e;
}

static void half(void) {
	syscall(SYS_kill, getpid(), SIGKILL);
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = dlsym(RTLD_NEXT, #name); f; })

/* The call is not made if it should fail; if the process should end half way, it does so after the call */
#define CALL(what, path, failed, call) ({ \
	char buffer[PATH_MAX]; \
	const char* p = path; \
	int w = event(what, p); \
	__typeof__(call) r = failed; \
	if (w >= 0) { \
		r = call; \
		int e = errno; \
		if (w) half(); \
		after(p); \
		errno = e; \
	} \
	r; })

static int changes(int flags) {
	return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}

#define MODE va_list args; va_start(args, flags); mode_t mode = va_arg(args, mode_t); va_end(args)

int open(const char* path, int flags, ...) {
	MODE;
	if (!changes(flags))
		return REAL(open)(path, flags, mode);
	return CALL("open", absolute(AT_FDCWD, path, buffer), -1, REAL(open)(path, flags, mode));
}

int open64(const char* path, int flags, ...) {
	MODE;
	if (!changes(flags))
		return REAL(open64)(path, flags, mode);
	return CALL("open", absolute(AT_FDCWD, path, buffer), -1, REAL(open64)(path, flags, mode));
}

int openat(int fd, const char* path, int flags, ...) {
	MODE;
	if (!changes(flags))
		return REAL(openat)(fd, path, flags, mode);
	return CALL("open", absolute(fd, path, buffer), -1, REAL(openat)(fd, path, flags, mode));
}

int openat64(int fd, const char* path, int flags, ...) {
	MODE;
	if (!changes(flags))
		return REAL(openat64)(fd, path, flags, mode);
	return CALL("open", absolute(fd, path, buffer), -1, REAL(openat64)(fd, path, flags, mode));
}

ssize_t write(int fd, const void* data, size_t size) {
	char buffer[PATH_MAX];
	const char* p = of_fd(fd, buffer);
	int w = event("write", p);
	if (w < 0)
		return -1;
	ssize_t r = REAL(write)(fd, data, w ? size / 2 : size);
	if (w)
		half();
	after(p);
	return r;
}

ssize_t pwrite(int fd, const void* data, size_t size, off_t o) {
	return CALL("pwrite", of_fd(fd, buffer), -1, REAL(pwrite)(fd, data, size, o));
}
ssize_t pwrite64(int fd, const void* data, size_t size, off64_t o) {
	return CALL("pwrite", of_fd(fd, buffer), -1, REAL(pwrite64)(fd, data, size, o));
}
ssize_t writev(int fd, const struct iovec* v, int n) {
	return CALL("writev", of_fd(fd, buffer), -1, REAL(writev)(fd, v, n));
}
int ftruncate(int fd, off_t l) {
	return CALL("ftruncate", of_fd(fd, buffer), -1, REAL(ftruncate)(fd, l));
}
int ftruncate64(int fd, off64_t l) {
	return CALL("ftruncate", of_fd(fd, buffer), -1, REAL(ftruncate64)(fd, l));
}
int truncate(const char* path, off_t l) {
	return CALL("truncate", absolute(AT_FDCWD, path, buffer), -1, REAL(truncate)(path, l));
}
int truncate64(const char* path, off64_t l) {
	return CALL("truncate", absolute(AT_FDCWD, path, buffer), -1, REAL(truncate64)(path, l));
}
ssize_t sendfile(int out, int in, off_t* o, size_t n);
ssize_t sendfile(int out, int in, off_t* o, size_t n) {
	return CALL("sendfile", of_fd(out, buffer), -1, REAL(sendfile)(out, in, o, n));
}
ssize_t sendfile64(int out, int in, off64_t* o, size_t n);
ssize_t sendfile64(int out, int in, off64_t* o, size_t n) {
	return CALL("sendfile", of_fd(out, buffer), -1, REAL(sendfile64)(out, in, o, n));
}
ssize_t copy_file_range(int in, off64_t* i, int out, off64_t* o, size_t n, unsigned int f) {
	return CALL("copy_file_range", of_fd(out, buffer), -1, REAL(copy_file_range)(in, i, out, o, n, f));
}
int rename(const char* a, const char* b) {
	return CALL("rename", absolute(AT_FDCWD, b, buffer), -1, REAL(rename)(a, b));
}
int renameat(int ad, const char* a, int bd, const char* b) {
	return CALL("rename", absolute(bd, b, buffer), -1, REAL(renameat)(ad, a, bd, b));
}
int renameat2(int ad, const char* a, int bd, const char* b, unsigned int f) {
	return CALL("rename", absolute(bd, b, buffer), -1, REAL(renameat2)(ad, a, bd, b, f));
}
int link(const char* a, const char* b) {
	return CALL("link", absolute(AT_FDCWD, b, buffer), -1, REAL(link)(a, b));
}
int linkat(int ad, const char* a, int bd, const char* b, int f) {
	return CALL("link", absolute(bd, b, buffer), -1, REAL(linkat)(ad, a, bd, b, f));
}
int symlink(const char* a, const char* b) {
	return CALL("symlink", absolute(AT_FDCWD, b, buffer), -1, REAL(symlink)(a, b));
}
int unlink(const char* path) {
	return CALL("unlink", absolute(AT_FDCWD, path, buffer), -1, REAL(unlink)(path));
}
int unlinkat(int fd, const char* path, int f) {
	return CALL("unlink", absolute(fd, path, buffer), -1, REAL(unlinkat)(fd, path, f));
}
int chmod(const char* path, mode_t mode) {
	return CALL("chmod", absolute(AT_FDCWD, path, buffer), -1, REAL(chmod)(path, mode));
}
int fchmod(int fd, mode_t mode) {
	return CALL("chmod", of_fd(fd, buffer), -1, REAL(fchmod)(fd, mode));
}
int fchmodat(int fd, const char* path, mode_t mode, int f) {
	return CALL("chmod", absolute(fd, path, buffer), -1, REAL(fchmodat)(fd, path, mode, f));
}
