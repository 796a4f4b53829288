/* Preloaded into the monitor while it decodes: notes what the process asks of its
 * surroundings (environment variables, files, clocks, process numbers, terminals,
 * limits), and answers differently where SURROUNDINGS says so. Only between the
 * two marks the monitor sets by asking for variables of reserved names.
 *
 * SURROUNDINGS=record      answers as they are
 * SURROUNDINGS=one|empty   variables that are not set are "1" / "", others are not set;
 *                          files that do not exist do (and read as SURROUNDINGS_FILE),
 *                          others do not; clocks are years away and jump with every
 *                          look; process and thread numbers, processors and terminals
 *                          are others
 * SURROUNDINGS_LOG         where to note things
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static atomic_int on;
static int vary, empty, logfd = -1;
static char answer[4096];
static char *(*real_getenv)(const char *);
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char seen[512][200];
static int seen_count;
static atomic_long ticks;

#define REAL(name) ({ static __typeof__(name) *f; if (!f) f = dlsym(RTLD_NEXT, #name); f; })

__attribute__((constructor)) static void init(void) {
	real_getenv = dlsym(RTLD_NEXT, "getenv");
	const char *mode = real_getenv("SURROUNDINGS");
	vary = mode && strcmp(mode, "record");
	empty = mode && !strcmp(mode, "empty");
	const char *file = real_getenv("SURROUNDINGS_FILE");
	if (file)
		snprintf(answer, sizeof answer, "%s", file);
	const char *log = real_getenv("SURROUNDINGS_LOG");
	if (log)
		logfd = open(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

static void note(const char *what, const char *name) {
	char line[200];
	int n = snprintf(line, sizeof line - 1, "%s %s", what, name ? name : "");
	if (n < 0)
		return;
	if (n > (int)sizeof line - 2)
		n = sizeof line - 2;
	pthread_mutex_lock(&lock);
	int i = 0;
	while (i < seen_count && strcmp(seen[i], line))
		i++;
	if (i == seen_count && seen_count < 512) {
		strcpy(seen[seen_count++], line);
		line[n] = '\n';
		if (logfd >= 0 && write(logfd, line, n + 1) < 0)
			logfd = -1;
	}
	pthread_mutex_unlock(&lock);
}

char *getenv(const char *name) {
	if (!real_getenv)
		init();
	if (!strcmp(name, "MONITOR_DECODING_BEGINS")) {
		atomic_store(&on, 1);
		return NULL;
	}
	if (!strcmp(name, "MONITOR_DECODING_ENDS")) {
		atomic_store(&on, 0);
		return NULL;
	}
	char *v = real_getenv(name);
	if (!atomic_load(&on))
		return v;
	note("variable", name);
	/* The Rust runtime's own say how to panic and how big a stack is */
	if (!vary || !strncmp(name, "RUST_", 5))
		return v;
	return v ? NULL : empty ? "" : "1";
}

char *secure_getenv(const char *name) { return getenv(name); }

#define FILES(call, path, failed)                                              \
	int was = errno;                                                       \
	__typeof__(call(path)) r = call(path);                                 \
	if (!atomic_load(&on))                                                 \
		return r;                                                      \
	note("file", path);                                                    \
	if (!vary)                                                             \
		return r;                                                      \
	if (r == failed) {                                                     \
		if (errno != ENOENT && errno != ENOTDIR)                       \
			return r;                                              \
		errno = was;                                                   \
		return call(answer);                                           \
	}                                                                      \
	failed_again(r);                                                       \
	errno = ENOENT;                                                        \
	return failed;

int open(const char *path, int flags, ...) {
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	if (flags & (O_CREAT | O_TMPFILE)) {
		if (atomic_load(&on))
			note("file made", path);
		return REAL(open)(path, flags, mode);
	}
#define call(p) REAL(open)(p, flags, mode)
#define failed_again(r) close(r)
	FILES(call, path, -1)
#undef call
}
int open64(const char *path, int flags, ...) {
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	return open(path, flags, mode);
}
int openat(int dir, const char *path, int flags, ...) {
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	if (flags & (O_CREAT | O_TMPFILE))
		return REAL(openat)(dir, path, flags, mode);
#define call(p) REAL(openat)(dir, p, flags, mode)
	FILES(call, path, -1)
#undef call
}
int openat64(int dir, const char *path, int flags, ...) {
	va_list a;
	va_start(a, flags);
	int mode = va_arg(a, int);
	va_end(a);
	return openat(dir, path, flags, mode);
}
#undef failed_again
#define failed_again(r)
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
	if (!*path)
		return REAL(statx)(dir, path, flags, mask, st);
#define call(p) REAL(statx)(dir, p, flags, mask, st)
	FILES(call, path, -1)
#undef call
}
int stat(const char *restrict path, struct stat *restrict st) {
#define call(p) REAL(stat)(p, st)
	FILES(call, path, -1)
#undef call
}
int stat64(const char *restrict path, struct stat64 *restrict st) {
#define call(p) REAL(stat64)(p, st)
	FILES(call, path, -1)
#undef call
}
int lstat(const char *restrict path, struct stat *restrict st) {
#define call(p) REAL(lstat)(p, st)
	FILES(call, path, -1)
#undef call
}
int lstat64(const char *restrict path, struct stat64 *restrict st) {
#define call(p) REAL(lstat64)(p, st)
	FILES(call, path, -1)
#undef call
}
int access(const char *path, int mode) {
#define call(p) REAL(access)(p, mode)
	FILES(call, path, -1)
#undef call
}
FILE *fopen(const char *restrict path, const char *restrict mode) {
	if (!mode || *mode != 'r')
		return REAL(fopen)(path, mode);
#undef failed_again
#define failed_again(r) fclose(r)
#define call(p) REAL(fopen)(p, mode)
	FILES(call, path, NULL)
#undef call
}

/* Years away, and further with every look */
static long away(void) { return (empty ? -1L : 1L) * (40L * 365 * 86400 + 977L * atomic_fetch_add(&ticks, 1)); }

int clock_gettime(clockid_t id, struct timespec *t) {
	int r = REAL(clock_gettime)(id, t);
	if (atomic_load(&on)) {
		note("clock", id == CLOCK_REALTIME ? "of the day" : "running");
		if (vary && r == 0)
			t->tv_sec += id == CLOCK_REALTIME ? away() : labs(away());
	}
	return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
	int r = REAL(gettimeofday)(t, z);
	if (atomic_load(&on)) {
		note("clock", "of the day");
		if (vary && r == 0)
			t->tv_sec += away();
	}
	return r;
}
time_t time(time_t *t) {
	time_t v = REAL(time)(NULL);
	if (atomic_load(&on)) {
		note("clock", "of the day");
		if (vary)
			v += away();
	}
	if (t)
		*t = v;
	return v;
}
#define NUMBER(type, name)                                                     \
	type name(void) {                                                      \
		type v = REAL(name)();                                         \
		if (!atomic_load(&on))                                         \
			return v;                                              \
		note("number", #name);                                         \
		return vary ? (type)(v + 12345 + empty) : v;                   \
	}
NUMBER(pid_t, getpid)
NUMBER(pid_t, getppid)
NUMBER(uid_t, getuid)
NUMBER(uid_t, geteuid)
int isatty(int fd) {
	int v = REAL(isatty)(fd);
	if (!atomic_load(&on))
		return v;
	note("terminal", "");
	return vary ? !v : v;
}
int gethostname(char *name, size_t n) {
	if (atomic_load(&on)) {
		note("host name", "");
		if (vary) {
			snprintf(name, n, "%s", empty ? "x" : "elsewhere");
			return 0;
		}
	}
	return REAL(gethostname)(name, n);
}
long sysconf(int what) {
	long v = REAL(sysconf)(what);
	if (!atomic_load(&on))
		return v;
	char text[20];
	snprintf(text, sizeof text, "%d", what);
	note("limit", text);
	return vary && (what == _SC_NPROCESSORS_ONLN || what == _SC_NPROCESSORS_CONF) ? 1 + 2 * empty : v;
}
