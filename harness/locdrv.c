/*
	locdrv - drives the public API of libloc from a script and logs what it observed.

	One command per input line, one result line per command (flushed immediately, so that the
	number of result lines identifies the command that crashed or hung).
	Strings are hex encoded with a leading '='; '-' is NULL.

	Only the exported API (libloc.sym) is used.
*/
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <arpa/nameser.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <resolv.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>

#include <libloc/libloc.h>
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#include <libloc/database.h>
#include <libloc/network.h>
#include <libloc/network-list.h>
#include <libloc/resolv.h>
#include <libloc/writer.h>

#define SLOTS 65536

static struct loc_ctx* ctx = NULL;

/* Every slot owns its references: count of references this program holds */
#define STORE(type, name) \
	static struct type* name[SLOTS]; \
	static int name##_refs[SLOTS];

STORE(loc_network, N)
STORE(loc_network_list, NL)
STORE(loc_as, A)
STORE(loc_as_list, AL)
STORE(loc_country, C)
STORE(loc_country_list, CL)
STORE(loc_writer, W)
STORE(loc_database, D)
STORE(loc_database_enumerator, E)

/* --- fault injection for allocations made by libloc (linked with --wrap) --- */
static long alloc_count = 0;
static long alloc_fail_at = 0;   // 0 = off; fail the n-th allocation from arming
static int alloc_fail_all = 0;   // keep failing once reached
static long alloc_failed = 0;

#ifdef WRAP_ALLOC
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
void* __real_reallocarray(void*, size_t, size_t);
int __real_vasprintf(char**, const char*, va_list);

static int alloc_should_fail(void) {
	alloc_count++;
	if (alloc_fail_at && (alloc_count == alloc_fail_at || (alloc_fail_all && alloc_count > alloc_fail_at))) {
		alloc_failed++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
void* __wrap_malloc(size_t s) { return alloc_should_fail() ? NULL : __real_malloc(s); }
void* __wrap_calloc(size_t n, size_t s) { return alloc_should_fail() ? NULL : __real_calloc(n, s); }
void* __wrap_realloc(void* p, size_t s) { return alloc_should_fail() ? NULL : __real_realloc(p, s); }
void* __wrap_reallocarray(void* p, size_t n, size_t s) {
	if (alloc_should_fail()) return NULL;
	return __real_reallocarray(p, n, s);
}
char* __wrap_strdup(const char* s) { return alloc_should_fail() ? NULL : __real_strdup(s); }
int __wrap_vasprintf(char** p, const char* f, va_list ap) {
	if (alloc_should_fail()) { *p = (char*)0xdeadbeefdeadbeefUL; return -1; }
	return __real_vasprintf(p, f, ap);
}
int __wrap_asprintf(char** p, const char* f, ...) {
	if (alloc_should_fail()) return -1;
	va_list ap; va_start(ap, f);
	int r = __real_vasprintf(p, f, ap);
	va_end(ap);
	return r;
}
/* _FORTIFY_SOURCE is not used in these builds */
#endif

/* --- the clock can be moved (for libloc and this driver only) --- */
/* Set the properties of records to something else first */
static int change_mind;

static long long clock_offset = 0;
#ifdef WRAP_CLOCK
#include <time.h>
#include <sys/time.h>
time_t __real_time(time_t*);
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __wrap_time(time_t* t) {
	time_t now = __real_time(NULL) + clock_offset;
	if (t) *t = now;
	return now;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
	int r = __real_gettimeofday(tv, tz);
	if (!r && tv) tv->tv_sec += clock_offset;
	return r;
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
	int r = __real_clock_gettime(id, ts);
	if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)) ts->tv_sec += clock_offset;
	return r;
}
#endif

/* --- files are mapped into the heap, so that the sanitizer knows where they end --- */
#ifdef WRAP_MMAP
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
#define MAPS 4096
static void* maps[MAPS];
static long mapped = 0;
void* __wrap_mmap(void* where, size_t length, int prot, int flags, int fd, off_t offset) {
	struct stat st;
	if (fd < 0 || where || (flags & MAP_ANONYMOUS) || fstat(fd, &st) || !S_ISREG(st.st_mode) || !length)
		return __real_mmap(where, length, prot, flags, fd, offset);
	/* only what the file really holds may be touched; a mapping beyond would be a SIGBUS or zeroes */
	size_t have = (st.st_size > offset) ? st.st_size - offset : 0;
	if (have < length) have = length;
	void* p = NULL;
	if (posix_memalign(&p, 4096, have)) { errno = ENOMEM; return MAP_FAILED; }
	memset(p, 0, have);
	for (size_t n = 0; n < length; ) {
		ssize_t r = pread(fd, (char*)p + n, length - n, offset + n);
		if (r <= 0) break;
		n += r;
	}
	for (int i = 0; i < MAPS; i++)
		if (!maps[i]) { maps[i] = p; mapped++; return p; }
	free(p);
	errno = ENOMEM;
	return MAP_FAILED;
}
void* __wrap_mmap64(void* where, size_t length, int prot, int flags, int fd, off_t offset) {
	return __wrap_mmap(where, length, prot, flags, fd, offset);
}
int __wrap_munmap(void* p, size_t length) {
	for (int i = 0; i < MAPS; i++)
		if (p && maps[i] == p) { maps[i] = NULL; free(p); return 0; }
	return __real_munmap(p, length);
}
#endif

/* --- scripted DNS --- */
static unsigned char dns_reply[65536];
static int dns_length = -1;
static int dns_size = 0;
static int dns_queries = 0;
static char dns_name[1024];

#ifdef WRAP_RESOLV
int __wrap_res_query(const char* dname, int class, int type, unsigned char* answer, int anslen);
int __wrap_res_query(const char* dname, int class, int type, unsigned char* answer, int anslen) {
	dns_queries++;
	snprintf(dns_name, sizeof(dns_name), "%s/%d/%d", dname, class, type);
	if (dns_length < 0) {
		h_errno = HOST_NOT_FOUND;
		return -1;
	}
	/* like the system resolver: fill at most anslen bytes, but report the full length.
	   What is left in the buffer after the reply may look like more of it */
	int n = (dns_size < anslen) ? dns_size : anslen;
	memcpy(answer, dns_reply, n);
	return dns_length;
}
#endif

/* --- log sink: formats every message, so that bad arguments are noticed --- */
static long log_messages = 0;
static void log_sink(struct loc_ctx* c, void* data, int priority, const char* file, int line,
		const char* fn, const char* format, va_list args) {
	static __thread char buffer[65536];
	vsnprintf(buffer, sizeof(buffer), format, args);
	if (!data)
		log_messages++;
}

/* --- captured messages: who has received what --- */
static void puthex(const char* s) {
	putchar('=');
	for (; *s; s++)
		printf("%02x", (unsigned char)*s);
}

struct message {
	int priority, tag, ctx;
	char* fn;
	char* text;
};
static struct message* messages = NULL;
static size_t messages_n = 0;
static struct { struct loc_ctx* ctx; int id; } contexts[4096];
static int contexts_n = 0;
static int tags[4096];

static int context_id(struct loc_ctx* c) {
	/* Addresses are used again, so the latest one counts */
	for (int i = contexts_n - 1; i >= 0; i--)
		if (contexts[i].ctx == c)
			return contexts[i].id;
	return -1;
}

static void capture(struct loc_ctx* c, int tag, int priority, const char* fn, const char* format, va_list args) {
	static char buffer[65536];
	vsnprintf(buffer, sizeof(buffer), format, args);
	messages = realloc(messages, (messages_n + 1) * sizeof(*messages));
	messages[messages_n++] = (struct message){ priority, tag, context_id(c), strdup(fn), strdup(buffer) };
}

static void capture_callback(struct loc_ctx* c, void* data, int priority, const char* file, int line,
		const char* fn, const char* format, va_list args) {
	capture(c, *(int*)data, priority, fn, format, args);
}

static void capture_fn(struct loc_ctx* c, int priority, const char* file, int line,
		const char* fn, const char* format, va_list args) {
	capture(c, -2, priority, fn, format, args);
}

/* --- file I/O faults: a FILE* whose backing store obeys a byte budget --- */
struct fio {
	int fd;
	off_t pos;
	long budget;      // bytes that may still be written; < 0: unlimited
	int errnum;       // what to report once the budget is exhausted
	int recover;      // number of failing writes after which writes succeed again; 0 = never
	long failures;
	long read_budget; // bytes that may still be read; < 0: unlimited
	long written;
	int seek_fail;    // fail the n-th seek; 0 = never
	int seeks;
};

static ssize_t fio_write(void* cookie, const char* buf, size_t size) {
	struct fio* io = cookie;
	size_t n = size;
	if (io->budget >= 0) {
		if (io->budget == 0) {
			io->failures++;
			if (io->recover && io->failures > io->recover) {
				io->budget = -1;
			} else {
				errno = io->errnum;
				return 0; /* fopencookie: 0 signals an error */
			}
		} else if ((long)n > io->budget) {
			/* a short write is an error for stdio, too */
			io->failures++;
			n = io->budget;
		}
	}
	ssize_t r = pwrite(io->fd, buf, n, io->pos);
	if (r < 0)
		return 0;
	io->pos += r;
	io->written += r;
	if (io->budget > 0)
		io->budget -= r;
	return r;
}

static ssize_t fio_read(void* cookie, char* buf, size_t size) {
	struct fio* io = cookie;
	size_t n = size;
	if (io->read_budget >= 0) {
		if (io->read_budget == 0) {
			io->failures++;
			errno = EIO;
			return -1;
		}
		if ((long)n > io->read_budget)
			n = io->read_budget;
	}
	ssize_t r = pread(io->fd, buf, n, io->pos);
	if (r > 0) {
		io->pos += r;
		if (io->read_budget > 0)
			io->read_budget -= r;
	}
	return r;
}

static int fio_seek(void* cookie, off64_t* offset, int whence) {
	struct fio* io = cookie;
	struct stat st;
	io->seeks++;
	if (io->seek_fail && io->seeks == io->seek_fail) {
		io->failures++;
		errno = EIO;
		return -1;
	}
	off_t base = 0;
	if (whence == SEEK_CUR)
		base = io->pos;
	else if (whence == SEEK_END) {
		if (fstat(io->fd, &st))
			return -1;
		base = st.st_size;
	}
	io->pos = base + *offset;
	*offset = io->pos;
	return 0;
}

static int fio_close(void* cookie) {
	struct fio* io = cookie;
	return close(io->fd);
}

/* --- helpers --- */
static char* argvv[512];
static int argcc;
static char* decoded[512];

static void die(const char* what) {
	printf("DRIVER-ERROR %s\n", what);
	fflush(stdout);
	exit(77);
}

static int nibble(char c) {
	return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : 0;
}

static const char* str(int i) {
	if (i >= argcc)
		die("missing argument");
	const char* p = argvv[i];
	if (strcmp(p, "-") == 0)
		return NULL;
	if (*p != '=')
		die("bad string");
	p++;
	size_t n = strlen(p) / 2;
	char* s = malloc(n + 1); /* exact size, so that over-reads are noticed */
	for (size_t j = 0; j < n; j++) {
		s[j] = nibble(p[2 * j]) << 4 | nibble(p[2 * j + 1]);
	}
	s[n] = '\0';
	free(decoded[i]);
	decoded[i] = s;
	return s;
}

static long num(int i) {
	if (i >= argcc)
		die("missing argument");
	return strtol(argvv[i], NULL, 0);
}

static int slot(int i) {
	long n = num(i);
	if (n < 0 || n >= SLOTS)
		die("bad slot");
	return n;
}

static void addr(int i, struct in6_addr* a) {
	const char* p = argvv[i];
	if (i >= argcc || strlen(p) != 32)
		die("bad address");
	for (int j = 0; j < 16; j++) {
		a->s6_addr[j] = nibble(p[2 * j]) << 4 | nibble(p[2 * j + 1]);
	}
}

static void out_str(const char* s) {
	if (!s) {
		printf(" -");
		return;
	}
	static const char digits[] = "0123456789abcdef";
	printf(" =");
	for (; *s; s++) {
		putchar_unlocked(digits[(unsigned char)*s >> 4]);
		putchar_unlocked(digits[*s & 15]);
	}
}

static void out_addr(const struct in6_addr* a) {
	printf(" ");
	for (int j = 0; j < 16; j++)
		printf("%02x", a->s6_addr[j]);
}

static void out_network(struct loc_network* n) {
	const char* cc = loc_network_get_country_code(n);
	const char* s = loc_network_str(n);
	printf(" %s", s ? s : "(null)");
	printf(" %d", loc_network_address_family(n) == AF_INET ? 4 : loc_network_address_family(n) == AF_INET6 ? 6 : -1);
	printf(" %u", loc_network_prefix(n));
	out_addr(loc_network_get_first_address(n));
	out_addr(loc_network_get_last_address(n));
	out_str(cc);
	printf(" %u", loc_network_get_asn(n));
	unsigned int flags = 0;
	for (int i = 0; i < 16; i++)
		if (loc_network_has_flag(n, 1u << i))
			flags |= 1u << i;
	printf(" %u", flags);
}

static void out_as(struct loc_as* a) {
	printf(" %u", loc_as_get_number(a));
	out_str(loc_as_get_name(a));
}

static void out_country(struct loc_country* c) {
	out_str(loc_country_get_code(c));
	out_str(loc_country_get_continent_code(c));
	out_str(loc_country_get_name(c));
}

static void out_list(struct loc_network_list* l) {
	size_t n = loc_network_list_size(l);
	printf(" %zu", n);
	for (size_t i = 0; i < n; i++) {
		struct loc_network* x = loc_network_list_get(l, i);
		printf(" |");
		if (x) {
			out_network(x);
			loc_network_unref(x);
		} else
			printf(" NULL");
	}
}

#define DROP(store, s, unref) \
	do { while (store##_refs[s] > 0) { unref(store[s]); store##_refs[s]--; } store[s] = NULL; } while (0)
#define PUT(store, s, object, unref) \
	do { DROP(store, s, unref); store[s] = (object); store##_refs[s] = (object) ? 1 : 0; } while (0)
#define HAVE(store, s) \
	if (!store[s]) { printf("EMPTY\n"); return; }

static int opt(const char* name, const char** value) {
	size_t l = strlen(name);
	for (int i = 1; i < argcc; i++) {
		if (strncmp(argvv[i], name, l) == 0 && argvv[i][l] == ':') {
			*value = argvv[i] + l + 1;
			return 1;
		}
	}
	return 0;
}

static int make_enumerator(struct loc_database* db, struct loc_database_enumerator** e) {
	const char* v;
	int mode = LOC_DB_ENUMERATE_NETWORKS, flags = 0;
	if (opt("mode", &v)) {
		switch (*v) {
			case 'n': mode = LOC_DB_ENUMERATE_NETWORKS; break;
			case 'a': mode = LOC_DB_ENUMERATE_ASES; break;
			case 'c': mode = LOC_DB_ENUMERATE_COUNTRIES; break;
			case 'b': mode = LOC_DB_ENUMERATE_BOGONS; break;
		}
	}
	if (opt("flatten", &v) && *v == '1')
		flags |= LOC_DB_ENUMERATOR_FLAGS_FLATTEN;

	int r = loc_database_enumerator_new(e, db, mode, flags);
	if (r)
		return r;

	if (opt("family", &v))
		loc_database_enumerator_set_family(*e, *v == '4' ? AF_INET : *v == '6' ? AF_INET6 : 0);
	if (opt("flags", &v)) {
		unsigned long f = strtoul(v, NULL, 0);
		/* one call per flag, the calls accumulate */
		for (int i = 0; i < 16; i++)
			if (f & (1u << i))
				loc_database_enumerator_set_flag(*e, 1u << i);
	}
	if (opt("countries", &v)) {
		struct loc_country_list* l;
		r = loc_country_list_new(ctx, &l);
		if (r)
			return r;
		char* copy = strdup(v);
		char* save = NULL;
		for (char* p = strtok_r(copy, ",", &save); p; p = strtok_r(NULL, ",", &save)) {
			struct loc_country* c = NULL;
			r = loc_country_new(ctx, &c, p);
			if (r)
				continue;
			loc_country_list_append(l, c);
			loc_country_unref(c);
		}
		free(copy);
		loc_database_enumerator_set_countries(*e, l);
		loc_country_list_unref(l);
		struct loc_country_list* back = loc_database_enumerator_get_countries(*e);
		if (back)
			loc_country_list_unref(back);
	}
	if (opt("asns", &v)) {
		struct loc_as_list* l;
		r = loc_as_list_new(ctx, &l);
		if (r)
			return r;
		char* copy = strdup(v);
		char* save = NULL;
		for (char* p = strtok_r(copy, ",", &save); p; p = strtok_r(NULL, ",", &save)) {
			struct loc_as* a = NULL;
			r = loc_as_new(ctx, &a, strtoul(p, NULL, 10));
			if (r)
				continue;
			loc_as_list_append(l, a);
			loc_as_unref(a);
		}
		free(copy);
		loc_database_enumerator_set_asns(*e, l);
		loc_as_list_unref(l);
		struct loc_as_list* back = loc_database_enumerator_get_asns(*e);
		if (back)
			loc_as_list_unref(back);
	}
	if (opt("string", &v)) {
		for (int i = 1; i < argcc; i++)
			if (strncmp(argvv[i], "string:", 7) == 0) {
				char* keep = argvv[i];
				argvv[i] = keep + 7;
				loc_database_enumerator_set_string(*e, str(i));
				argvv[i] = keep;
			}
	}
	return 0;
}

/* prints one element; returns 1 if there was one, 0 at the end, < 0 on errors */
static int enum_step(struct loc_database_enumerator* e, char mode) {
	int r;
	if (mode == 'a') {
		struct loc_as* a = NULL;
		r = loc_database_enumerator_next_as(e, &a);
		if (r) { printf(" ERROR:%d", r); return -1; }
		if (!a)
			return 0;
		printf(" |"); out_as(a); loc_as_unref(a);
	} else if (mode == 'c') {
		struct loc_country* c = NULL;
		r = loc_database_enumerator_next_country(e, &c);
		if (r) { printf(" ERROR:%d", r); return -1; }
		if (!c)
			return 0;
		printf(" |"); out_country(c); loc_country_unref(c);
	} else {
		struct loc_network* n = NULL;
		r = loc_database_enumerator_next_network(e, &n);
		if (r) { printf(" ERROR:%d", r); return -1; }
		if (!n)
			return 0;
		printf(" |"); out_network(n); loc_network_unref(n);
	}
	return 1;
}

static FILE* open_key(const char* path) {
	return path ? fopen(path, "r") : NULL;
}

#ifdef FUZZ_HOSTILE
#define ALLOW_ERRORS 1
#endif

/* leaves a pattern in unused memory, on the stack and on the heap */
static __attribute__((noinline)) void dirty(int value) {
	volatile unsigned char garbage[512 * 1024];
	for (size_t i = 0; i < sizeof(garbage); i++)
		garbage[i] = value;
	void* blocks[200];
	for (int i = 0; i < 200; i++) {
		size_t n = 16 + i * 40;
		blocks[i] = malloc(n);
		if (blocks[i]) memset(blocks[i], value, n);
	}
	for (int i = 0; i < 200; i++)
		free(blocks[i]);
}

static void command(void) {
	const char* c = argvv[0];
	int r, s, t;
	struct in6_addr a;
	errno = 0;

#define CMD(name) if (strcmp(c, name) == 0)

	/* --- networks --- */
	CMD("nn") { /* slot string */
		s = slot(1);
		struct loc_network* n = NULL;
		r = loc_network_new_from_string(ctx, &n, str(2));
		int e = errno;
		if (r == 0) PUT(N, s, n, loc_network_unref); else DROP(N, s, loc_network_unref);
		printf("%d %d", r, r ? e : 0);
		if (r == 0) out_network(n);
		printf("\n"); return;
	}
	CMD("nb") { /* slot address prefix */
		s = slot(1); addr(2, &a);
		struct loc_network* n = NULL;
		r = loc_network_new(ctx, &n, &a, (unsigned int)num(3));
		int e = errno;
		if (r == 0) PUT(N, s, n, loc_network_unref); else DROP(N, s, loc_network_unref);
		printf("%d %d", r, r ? e : 0);
		if (r == 0) out_network(n);
		printf("\n"); return;
	}
	CMD("nref") { s = slot(1); HAVE(N, s); loc_network_ref(N[s]); N_refs[s]++; printf("ok\n"); return; }
	CMD("nunref") {
		s = slot(1); HAVE(N, s);
		struct loc_network* left = loc_network_unref(N[s]);
		N_refs[s]--;
		if (!N_refs[s]) N[s] = NULL;
		printf("ok %d\n", left ? 1 : 0); return;
	}
	CMD("nget") {
		s = slot(1); HAVE(N, s); printf("ok"); out_network(N[s]);
		// Both must be usable at the same time
		const char* f = loc_network_format_first_address(N[s]);
		const char* l = loc_network_format_last_address(N[s]);
		printf(" %s", f ? f : "(null)"); printf(" %s", l ? l : "(null)");
		printf("\n"); return;
	}
	CMD("nsetcc") { s = slot(1); HAVE(N, s); r = loc_network_set_country_code(N[s], str(2)); printf("%d\n", r); return; }
	CMD("nsetasn") { s = slot(1); HAVE(N, s); r = loc_network_set_asn(N[s], strtoul(argvv[2], NULL, 0)); printf("%d\n", r); return; }
	CMD("nsetflag") { s = slot(1); HAVE(N, s); r = loc_network_set_flag(N[s], strtoul(argvv[2], NULL, 0)); printf("%d\n", r); return; }
	CMD("nhasflag") { s = slot(1); HAVE(N, s); r = loc_network_has_flag(N[s], strtoul(argvv[2], NULL, 0)); printf("%d\n", !!r); return; }
	CMD("nmatch") { s = slot(1); HAVE(N, s); addr(2, &a); printf("%d\n", loc_network_matches_address(N[s], &a)); return; }
	CMD("nmatchcc") { s = slot(1); HAVE(N, s); r = loc_network_matches_country_code(N[s], str(2)); printf("%d\n", r < 0 ? -1 : !!r); return; }
	CMD("nrel") { /* a b -> cmp overlaps subnet */
		s = slot(1); t = slot(2); HAVE(N, s); HAVE(N, t);
		int x = loc_network_cmp(N[s], N[t]);
		printf("%d %d %d\n", x < 0 ? -1 : x > 0, !!loc_network_overlaps(N[s], N[t]), !!loc_network_is_subnet(N[s], N[t]));
		return;
	}
	CMD("nsub") { /* slot dst1 dst2 */
		s = slot(1); HAVE(N, s);
		struct loc_network* n1 = NULL; struct loc_network* n2 = NULL;
		r = loc_network_subnets(N[s], &n1, &n2);
		printf("%d", r);
		if (r == 0) {
			PUT(N, slot(2), n1, loc_network_unref);
			PUT(N, slot(3), n2, loc_network_unref);
			printf(" |"); out_network(n1); printf(" |"); out_network(n2);
		}
		printf("\n"); return;
	}
	CMD("nexcl") { /* a b listslot */
		s = slot(1); t = slot(2); HAVE(N, s); HAVE(N, t);
		struct loc_network_list* l = loc_network_exclude(N[s], N[t]);
		if (!l) { printf("NULL\n"); return; }
		printf("ok"); out_list(l); printf("\n");
		PUT(NL, slot(3), l, loc_network_list_unref); return;
	}
	CMD("nexcll") { /* a list dstlist */
		s = slot(1); t = slot(2); HAVE(N, s); HAVE(NL, t);
		struct loc_network_list* l = loc_network_exclude_list(N[s], NL[t]);
		if (!l) { printf("NULL\n"); return; }
		printf("ok"); out_list(l); printf("\n");
		PUT(NL, slot(3), l, loc_network_list_unref); return;
	}
	CMD("nrev") { /* slot suffix */
		s = slot(1); HAVE(N, s);
		char* p = loc_network_reverse_pointer(N[s], str(2));
		int e = errno;
		printf("ok"); out_str(p); printf(" %d\n", p ? 0 : e); free(p); return;
	}

	/* --- network lists --- */
	CMD("ll") { s = slot(1); struct loc_network_list* l = NULL; r = loc_network_list_new(ctx, &l); if (r == 0) PUT(NL, s, l, loc_network_list_unref); printf("%d\n", r); return; }
	CMD("lref") { s = slot(1); HAVE(NL, s); loc_network_list_ref(NL[s]); NL_refs[s]++; printf("ok\n"); return; }
	CMD("lunref") { s = slot(1); HAVE(NL, s); struct loc_network_list* left = loc_network_list_unref(NL[s]); NL_refs[s]--; if (!NL_refs[s]) NL[s] = NULL; printf("ok %d\n", left ? 1 : 0); return; }
	CMD("lpush") { s = slot(1); t = slot(2); HAVE(NL, s); HAVE(N, t); r = loc_network_list_push(NL[s], N[t]); printf("%d\n", r); return; }
	CMD("lpop") { /* list dst: last */
		s = slot(1); HAVE(NL, s); struct loc_network* n = loc_network_list_pop(NL[s]);
		if (!n) { printf("none\n"); return; }
		PUT(N, slot(2), n, loc_network_unref); printf("ok"); out_network(n); printf("\n"); return;
	}
	CMD("lpopf") {
		s = slot(1); HAVE(NL, s); struct loc_network* n = loc_network_list_pop_first(NL[s]);
		if (!n) { printf("none\n"); return; }
		PUT(N, slot(2), n, loc_network_unref); printf("ok"); out_network(n); printf("\n"); return;
	}
	CMD("lget") {
		s = slot(1); HAVE(NL, s); struct loc_network* n = loc_network_list_get(NL[s], (size_t)num(2));
		if (!n) { printf("none\n"); return; }
		printf("ok"); out_network(n); printf("\n"); loc_network_unref(n); return;
	}
	CMD("lall") { s = slot(1); HAVE(NL, s); printf("ok %d", !!loc_network_list_empty(NL[s])); out_list(NL[s]); printf("\n"); return; }
	CMD("lhas") { s = slot(1); t = slot(2); HAVE(NL, s); HAVE(N, t); printf("%d\n", !!loc_network_list_contains(NL[s], N[t])); return; }
	CMD("lmerge") { s = slot(1); t = slot(2); HAVE(NL, s); HAVE(NL, t); r = loc_network_list_merge(NL[s], NL[t]); printf("%d\n", r); return; }
	CMD("lclear") { s = slot(1); HAVE(NL, s); loc_network_list_clear(NL[s]); printf("ok\n"); return; }
	CMD("ldump") { s = slot(1); HAVE(NL, s); loc_network_list_dump(NL[s]); printf("ok\n"); return; }

	/* --- AS --- */
	CMD("an") { s = slot(1); struct loc_as* x = NULL; r = loc_as_new(ctx, &x, strtoul(argvv[2], NULL, 0)); if (r == 0) PUT(A, s, x, loc_as_unref); printf("%d\n", r); return; }
	CMD("aref") { s = slot(1); HAVE(A, s); loc_as_ref(A[s]); A_refs[s]++; printf("ok\n"); return; }
	CMD("aunref") { s = slot(1); HAVE(A, s); struct loc_as* left = loc_as_unref(A[s]); A_refs[s]--; if (!A_refs[s]) A[s] = NULL; printf("ok %d\n", left ? 1 : 0); return; }
	CMD("aname") { s = slot(1); HAVE(A, s); r = loc_as_set_name(A[s], str(2)); printf("%d\n", r); return; }
	CMD("aself") { s = slot(1); HAVE(A, s); r = loc_as_set_name(A[s], loc_as_get_name(A[s])); printf("%d\n", r); return; }
	CMD("aget") { s = slot(1); HAVE(A, s); printf("ok"); out_as(A[s]); printf("\n"); return; }
	CMD("acmp") { s = slot(1); t = slot(2); HAVE(A, s); HAVE(A, t); r = loc_as_cmp(A[s], A[t]); printf("%d\n", r < 0 ? -1 : r > 0); return; }
	CMD("al") { s = slot(1); struct loc_as_list* l = NULL; r = loc_as_list_new(ctx, &l); if (r == 0) PUT(AL, s, l, loc_as_list_unref); printf("%d\n", r); return; }
	CMD("alref") { s = slot(1); HAVE(AL, s); loc_as_list_ref(AL[s]); AL_refs[s]++; printf("ok\n"); return; }
	CMD("alunref") { s = slot(1); HAVE(AL, s); loc_as_list_unref(AL[s]); AL_refs[s]--; if (!AL_refs[s]) AL[s] = NULL; printf("ok\n"); return; }
	CMD("alappend") { s = slot(1); t = slot(2); HAVE(AL, s); HAVE(A, t); r = loc_as_list_append(AL[s], A[t]); printf("%d\n", r); return; }
	CMD("alhas") { s = slot(1); t = slot(2); HAVE(AL, s); HAVE(A, t); printf("%d\n", !!loc_as_list_contains(AL[s], A[t])); return; }
	CMD("alhasn") { s = slot(1); HAVE(AL, s); printf("%d\n", !!loc_as_list_contains_number(AL[s], strtoul(argvv[2], NULL, 0))); return; }
	CMD("alsort") { s = slot(1); HAVE(AL, s); loc_as_list_sort(AL[s]); printf("ok\n"); return; }
	CMD("alclear") { s = slot(1); HAVE(AL, s); loc_as_list_clear(AL[s]); printf("ok\n"); return; }
	CMD("alget") { s = slot(1); HAVE(AL, s); struct loc_as* x = loc_as_list_get(AL[s], (size_t)num(2)); if (!x) { printf("none\n"); return; } printf("ok"); out_as(x); printf("\n"); loc_as_unref(x); return; }
	CMD("alall") {
		s = slot(1); HAVE(AL, s); size_t n = loc_as_list_size(AL[s]); printf("ok %d %zu", !!loc_as_list_empty(AL[s]), n);
		for (size_t i = 0; i < n; i++) { struct loc_as* x = loc_as_list_get(AL[s], i); printf(" |"); out_as(x); loc_as_unref(x); }
		printf("\n"); return;
	}

	/* --- countries --- */
	CMD("cn") { s = slot(1); struct loc_country* x = NULL; r = loc_country_new(ctx, &x, str(2)); if (r == 0) PUT(C, s, x, loc_country_unref); printf("%d\n", r); return; }
	CMD("cref") { s = slot(1); HAVE(C, s); loc_country_ref(C[s]); C_refs[s]++; printf("ok\n"); return; }
	CMD("cunref") { s = slot(1); HAVE(C, s); struct loc_country* left = loc_country_unref(C[s]); C_refs[s]--; if (!C_refs[s]) C[s] = NULL; printf("ok %d\n", left ? 1 : 0); return; }
	CMD("cname") { s = slot(1); HAVE(C, s); r = loc_country_set_name(C[s], str(2)); printf("%d\n", r); return; }
	CMD("cself") { s = slot(1); HAVE(C, s); r = loc_country_set_name(C[s], loc_country_get_name(C[s])); printf("%d\n", r); return; }
	CMD("ccont") { s = slot(1); HAVE(C, s); r = loc_country_set_continent_code(C[s], str(2)); printf("%d\n", r); return; }
	CMD("cget") { s = slot(1); HAVE(C, s); printf("ok"); out_country(C[s]); printf("\n"); return; }
	CMD("ccmp") { s = slot(1); t = slot(2); HAVE(C, s); HAVE(C, t); r = loc_country_cmp(C[s], C[t]); printf("%d\n", r < 0 ? -1 : r > 0); return; }
	CMD("ccvalid") { printf("%d\n", !!loc_country_code_is_valid(str(1))); return; }
	CMD("ccflag") { printf("%d\n", loc_country_special_code_to_flag(str(1))); return; }
	CMD("cl") { s = slot(1); struct loc_country_list* l = NULL; r = loc_country_list_new(ctx, &l); if (r == 0) PUT(CL, s, l, loc_country_list_unref); printf("%d\n", r); return; }
	CMD("clref") { s = slot(1); HAVE(CL, s); loc_country_list_ref(CL[s]); CL_refs[s]++; printf("ok\n"); return; }
	CMD("clunref") { s = slot(1); HAVE(CL, s); loc_country_list_unref(CL[s]); CL_refs[s]--; if (!CL_refs[s]) CL[s] = NULL; printf("ok\n"); return; }
	CMD("clappend") { s = slot(1); t = slot(2); HAVE(CL, s); HAVE(C, t); r = loc_country_list_append(CL[s], C[t]); printf("%d\n", r); return; }
	CMD("clhas") { s = slot(1); t = slot(2); HAVE(CL, s); HAVE(C, t); printf("%d\n", !!loc_country_list_contains(CL[s], C[t])); return; }
	CMD("clhasc") { s = slot(1); HAVE(CL, s); printf("%d\n", !!loc_country_list_contains_code(CL[s], str(2))); return; }
	CMD("clsort") { s = slot(1); HAVE(CL, s); loc_country_list_sort(CL[s]); printf("ok\n"); return; }
	CMD("clclear") { s = slot(1); HAVE(CL, s); loc_country_list_clear(CL[s]); printf("ok\n"); return; }
	CMD("clget") { s = slot(1); HAVE(CL, s); struct loc_country* x = loc_country_list_get(CL[s], (size_t)num(2)); if (!x) { printf("none\n"); return; } printf("ok"); out_country(x); printf("\n"); loc_country_unref(x); return; }
	CMD("clall") {
		s = slot(1); HAVE(CL, s); size_t n = loc_country_list_size(CL[s]); printf("ok %d %zu", !!loc_country_list_empty(CL[s]), n);
		for (size_t i = 0; i < n; i++) { struct loc_country* x = loc_country_list_get(CL[s], i); printf(" |"); out_country(x); loc_country_unref(x); }
		printf("\n"); return;
	}

	/* --- writer --- */
	CMD("wn") { /* slot key1 key2 */
		s = slot(1);
		FILE* f1 = open_key(str(2)); FILE* f2 = open_key(str(3));
		struct loc_writer* w = NULL;
		r = loc_writer_new(ctx, &w, f1, f2);
		if (f1) fclose(f1);
		if (f2) fclose(f2);
		if (r == 0) PUT(W, s, w, loc_writer_unref);
		printf("%d\n", r); return;
	}
	CMD("wref") { s = slot(1); HAVE(W, s); loc_writer_ref(W[s]); W_refs[s]++; printf("ok\n"); return; }
	CMD("wunref") { s = slot(1); HAVE(W, s); struct loc_writer* left = loc_writer_unref(W[s]); W_refs[s]--; if (!W_refs[s]) W[s] = NULL; printf("ok %d\n", left ? 1 : 0); return; }
	CMD("wset") { /* slot v|d|l string */
		s = slot(1); HAVE(W, s);
		switch (*argvv[2]) {
			case 'v': r = loc_writer_set_vendor(W[s], str(3)); break;
			case 'd': r = loc_writer_set_description(W[s], str(3)); break;
			default:  r = loc_writer_set_license(W[s], str(3)); break;
		}
		printf("%d\n", r); return;
	}
	CMD("wget") { s = slot(1); HAVE(W, s); printf("ok"); out_str(loc_writer_get_vendor(W[s])); out_str(loc_writer_get_description(W[s])); out_str(loc_writer_get_license(W[s])); printf("\n"); return; }
	CMD("wnet") { /* slot netslot string [cc asn flags] */
		s = slot(1); t = slot(2); HAVE(W, s);
		struct loc_network* n = NULL;
		r = loc_writer_add_network(W[s], &n, str(3));
		if (r == 0) {
			PUT(N, t, n, loc_network_unref);
			if (argcc > 4) {
				if (change_mind) {
					loc_network_set_country_code(n, change_mind & 1 ? "ZW" : "QY");
					loc_network_set_asn(n, 0xfffefdfc + change_mind);
					if (change_mind & 2)
						loc_network_str(n);
				}
				loc_network_set_country_code(n, str(4));
				loc_network_set_asn(n, strtoul(argvv[5], NULL, 0));
				unsigned long f = strtoul(argvv[6], NULL, 0);
				loc_network_set_flag(n, f);
			}
		}
		printf("%d\n", r); return;
	}
	CMD("was") { /* slot asslot number [name] */
		s = slot(1); t = slot(2); HAVE(W, s);
		struct loc_as* x = NULL;
		r = loc_writer_add_as(W[s], &x, strtoul(argvv[3], NULL, 0));
		if (r == 0) {
			PUT(A, t, x, loc_as_unref);
			if (change_mind) { loc_as_set_name(x, "Something that is replaced"); if (argcc <= 4) loc_as_set_name(x, NULL); }
			if (argcc > 4) loc_as_set_name(x, str(4));
		}
		printf("%d\n", r); return;
	}
	CMD("wctry") { /* slot countryslot code [continent name] */
		s = slot(1); t = slot(2); HAVE(W, s);
		struct loc_country* x = NULL;
		r = loc_writer_add_country(W[s], &x, str(3));
		if (r == 0) {
			PUT(C, t, x, loc_country_unref);
			if (change_mind) { loc_country_set_name(x, "Something that is replaced"); loc_country_set_name(x, NULL); }
			if (argcc > 5) {
				if (change_mind && str(4)) loc_country_set_continent_code(x, "QY");
				if (str(4)) loc_country_set_continent_code(x, str(4));
				if (str(5)) loc_country_set_name(x, str(5));
			}
		}
		printf("%d\n", r); return;
	}
	CMD("wwrite") { /* slot path version [mode] */
		s = slot(1); HAVE(W, s);
		FILE* f = fopen(str(2), (argcc > 4) ? argvv[4] : "w+");
		if (!f) { printf("NOFILE %d\n", errno); return; }
		errno = 0;
		r = loc_writer_write(W[s], f, num(3));
		int e = errno;
		if (fclose(f)) r = r ? r : 1000;
		printf("%d %d\n", r, e); return;
	}
	CMD("wfault") { /* slot path version budget errno recover readbudget seekfail bufsize -> result, failures, written */
		s = slot(1); HAVE(W, s);
		struct fio io = { .fd = open(str(2), O_RDWR | O_CREAT | O_TRUNC, 0600) };
		if (io.fd < 0) { printf("NOFILE %d\n", errno); return; }
		io.budget = num(4); io.errnum = num(5); io.recover = num(6); io.read_budget = num(7); io.seek_fail = num(8);
		cookie_io_functions_t fn = { fio_read, fio_write, fio_seek, fio_close };
		FILE* f = fopencookie(&io, "w+", fn);
		if (!f) die("fopencookie");
		long bufsize = num(9);
		char* buffer = NULL;
		if (bufsize == 0) setvbuf(f, NULL, _IONBF, 0);
		else if (bufsize > 0) { buffer = malloc(bufsize); setvbuf(f, buffer, _IOFBF, bufsize); }
		alarm(10); /* stuck inside one write: SIGALRM ends the process, seen as a hang */
		r = loc_writer_write(W[s], f, num(3));
		alarm(0);
		long failures = io.failures;
		int err = ferror(f);
		io.budget = -1; io.read_budget = -1;
		/* what the library left unflushed is not allowed to reach the file any more:
		   count pending bytes by comparing before and after closing */
		long before = io.written;
		fclose(f);
		free(buffer);
		printf("%d %ld %d %ld %ld %d\n", r, failures, err, before, io.written - before, io.seeks); return;
	}

	/* --- database --- */
	CMD("dopen") { /* slot path */
		s = slot(1);
		FILE* f = fopen(str(2), "r");
		if (!f) { printf("NOFILE %d\n", errno); return; }
		struct loc_database* d = NULL;
		errno = 0;
		r = loc_database_new(ctx, &d, f);
		int e = errno;
		fclose(f);
		if (r == 0) PUT(D, s, d, loc_database_unref); else DROP(D, s, loc_database_unref);
		printf("%d %d\n", r, e); return;
	}
	CMD("dref") { s = slot(1); HAVE(D, s); loc_database_ref(D[s]); D_refs[s]++; printf("ok\n"); return; }
	CMD("dunref") { s = slot(1); HAVE(D, s); loc_database_unref(D[s]); D_refs[s]--; if (!D_refs[s]) D[s] = NULL; printf("ok\n"); return; }
	CMD("mind") { change_mind = atoi(argvv[1]); printf("ok\n"); return; }
	CMD("clock") { clock_offset = strtoll(argvv[1], NULL, 10); printf("ok\n"); return; }
	CMD("dmeta") {
		s = slot(1); HAVE(D, s); printf("ok %lld %zu", (long long)loc_database_created_at(D[s]), loc_database_count_as(D[s]));
		out_str(loc_database_get_vendor(D[s])); out_str(loc_database_get_description(D[s])); out_str(loc_database_get_license(D[s]));
		printf("\n"); return;
	}
	CMD("dverify") { /* slot keypath */
		s = slot(1); HAVE(D, s);
		FILE* f = open_key(str(2));
		if (!f) { printf("NOFILE\n"); return; }
		r = loc_database_verify(D[s], f);
		fclose(f);
		printf("%d\n", r); return;
	}
	CMD("dverifyfault") { /* slot keypath datapath bytes: the file starts to fail after some bytes */
		s = slot(1); HAVE(D, s);
		/* the only descriptor above the standard ones belongs to the database */
		int fd = -1;
		for (int i = 3; i < 4096; i++) if (fcntl(i, F_GETFD) >= 0) { fd = i; break; }
		FILE* f = open_key(str(2));
		int data = open(str(3), O_RDONLY);
		if (!f || fd < 0 || data < 0) { printf("NOFILE\n"); return; }
		int p[2];
		if (pipe2(p, O_NONBLOCK)) die("pipe");
		fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
		char block[4096]; long left = num(4);
		while (left > 0) {
			ssize_t n = read(data, block, left < 4096 ? left : 4096);
			if (n <= 0 || write(p[1], block, n) != n) break;
			left -= n;
		}
		dup2(p[0], fd);
		alarm(20);
		r = loc_database_verify(D[s], f);
		alarm(0);
		close(p[0]); close(p[1]); close(data);
		fclose(f);
		printf("%d\n", r); return;
	}
	CMD("dl") { /* slot address */
		s = slot(1); HAVE(D, s); addr(2, &a);
		struct loc_network* n = NULL;
		/* exact size allocation, so that reading or writing beyond the address is noticed */
		struct in6_addr* p = malloc(sizeof(*p)); *p = a;
		r = loc_database_lookup(D[s], p, &n);
		free(p);
		printf("%d", r);
		if (r == 0 && n) { out_network(n); loc_network_unref(n); }
		printf("\n"); return;
	}
	CMD("dls") { /* slot string */
		s = slot(1); HAVE(D, s);
		struct loc_network* n = NULL;
		r = loc_database_lookup_from_string(D[s], str(2), &n);
		printf("%d", r);
		if (r == 0 && n) { out_network(n); loc_network_unref(n); }
		printf("\n"); return;
	}
	CMD("das") { /* slot number */
		s = slot(1); HAVE(D, s);
		struct loc_as* x = NULL;
		r = loc_database_get_as(D[s], &x, strtoul(argvv[2], NULL, 0));
		printf("%d", r);
		if (r == 0 && x) { out_as(x); loc_as_unref(x); }
		printf("\n"); return;
	}
	CMD("dc") { /* slot code */
		s = slot(1); HAVE(D, s);
		struct loc_country* x = NULL;
		r = loc_database_get_country(D[s], &x, str(2));
		printf("%d", r);
		if (r == 0 && x) { out_country(x); loc_country_unref(x); }
		printf("\n"); return;
	}
	CMD("de") { /* slot options...: enumerate everything. limit:N bounds the number of elements */
		s = slot(1); HAVE(D, s);
		const char* v; char mode = 'n'; long limit = 1000000, n = 0; int limited = 0;
		if (opt("mode", &v)) mode = *v;
		if (opt("limit", &v)) { limit = atol(v); limited = 1; }
		struct loc_database_enumerator* e = NULL;
		r = make_enumerator(D[s], &e);
		printf("%d", r);
		if (r == 0) {
			while (n < limit && (r = enum_step(e, mode)) > 0)
				n++;
			/* a finished enumerator stays finished (networks and bogons) */
			if (r == 0 && n < limit && (mode == 'n' || mode == 'b')) {
				struct loc_network* extra = NULL;
				int q = loc_database_enumerator_next_network(e, &extra);
				if (q || extra) printf(" AFTER-END:%d", q);
				if (extra) loc_network_unref(extra);
			}
			if (n >= limit) printf(limited ? " LIMIT" : " ERROR-ENDLESS");
		}
		if (e) loc_database_enumerator_unref(e);
		printf("\n"); return;
	}
	CMD("en") { /* eslot dbslot options */
		s = slot(1); t = slot(2); HAVE(D, t);
		struct loc_database_enumerator* e = NULL;
		r = make_enumerator(D[t], &e);
		if (r == 0) PUT(E, s, e, loc_database_enumerator_unref);
		printf("%d\n", r); return;
	}
	CMD("estep") { /* eslot mode count */
		s = slot(1); HAVE(E, s); printf("ok");
		for (long i = 0, k = num(3); i < k; i++)
			if (enum_step(E[s], *argvv[2]) <= 0) { printf(" END"); break; }
		printf("\n"); return;
	}
	CMD("eref") { s = slot(1); HAVE(E, s); loc_database_enumerator_ref(E[s]); E_refs[s]++; printf("ok\n"); return; }
	CMD("eunref") { s = slot(1); HAVE(E, s); loc_database_enumerator_unref(E[s]); E_refs[s]--; if (!E_refs[s]) E[s] = NULL; printf("ok\n"); return; }

	/* --- keeping what has been returned --- */
	CMD("lgetk") { /* list index dst */
		s = slot(1); HAVE(NL, s); struct loc_network* n = loc_network_list_get(NL[s], (size_t)num(2));
		if (!n) { printf("none\n"); return; }
		PUT(N, slot(3), n, loc_network_unref); printf("ok"); out_network(n); printf("\n"); return;
	}
	CMD("algetk") {
		s = slot(1); HAVE(AL, s); struct loc_as* x = loc_as_list_get(AL[s], (size_t)num(2));
		if (!x) { printf("none\n"); return; }
		PUT(A, slot(3), x, loc_as_unref); printf("ok"); out_as(x); printf("\n"); return;
	}
	CMD("clgetk") {
		s = slot(1); HAVE(CL, s); struct loc_country* x = loc_country_list_get(CL[s], (size_t)num(2));
		if (!x) { printf("none\n"); return; }
		PUT(C, slot(3), x, loc_country_unref); printf("ok"); out_country(x); printf("\n"); return;
	}
	CMD("dlk") { /* slot address dst */
		s = slot(1); HAVE(D, s); addr(2, &a);
		struct loc_network* n = NULL;
		r = loc_database_lookup(D[s], &a, &n);
		if (r || !n) { printf("none\n"); return; }
		PUT(N, slot(3), n, loc_network_unref); printf("ok"); out_network(n); printf("\n"); return;
	}
	CMD("dask") {
		s = slot(1); HAVE(D, s); struct loc_as* x = NULL;
		r = loc_database_get_as(D[s], &x, strtoul(argvv[2], NULL, 0));
		if (r || !x) { printf("none\n"); return; }
		PUT(A, slot(3), x, loc_as_unref); printf("ok"); out_as(x); printf("\n"); return;
	}
	CMD("dck") {
		s = slot(1); HAVE(D, s); struct loc_country* x = NULL;
		r = loc_database_get_country(D[s], &x, str(2));
		if (r || !x) { printf("none\n"); return; }
		PUT(C, slot(3), x, loc_country_unref); printf("ok"); out_country(x); printf("\n"); return;
	}
	CMD("enext") { /* e n|a|c dst */
		s = slot(1); HAVE(E, s); t = slot(3);
		if (*argvv[2] == 'a') {
			struct loc_as* x = NULL; r = loc_database_enumerator_next_as(E[s], &x);
			if (r || !x) { printf("none\n"); return; }
			PUT(A, t, x, loc_as_unref); printf("ok"); out_as(x);
		} else if (*argvv[2] == 'c') {
			struct loc_country* x = NULL; r = loc_database_enumerator_next_country(E[s], &x);
			if (r || !x) { printf("none\n"); return; }
			PUT(C, t, x, loc_country_unref); printf("ok"); out_country(x);
		} else {
			struct loc_network* x = (struct loc_network*)0x5; r = loc_database_enumerator_next_network(E[s], &x);
			if (r || !x) { printf("none\n"); return; }
			PUT(N, t, x, loc_network_unref); printf("ok"); out_network(x);
		}
		printf("\n"); return;
	}
	CMD("eset") { /* e string|family|flag value */
		s = slot(1); HAVE(E, s);
		if (*argvv[2] == 's') r = loc_database_enumerator_set_string(E[s], str(3));
		else if (argvv[2][1] == 'a') r = loc_database_enumerator_set_family(E[s], num(3) == 4 ? AF_INET : num(3) == 6 ? AF_INET6 : 0);
		else r = loc_database_enumerator_set_flag(E[s], num(3));
		printf("%d\n", r); return;
	}
	CMD("esetc") { s = slot(1); t = slot(2); HAVE(E, s); HAVE(CL, t); printf("%d\n", loc_database_enumerator_set_countries(E[s], CL[t])); return; }
	CMD("eseta") { s = slot(1); t = slot(2); HAVE(E, s); HAVE(AL, t); printf("%d\n", loc_database_enumerator_set_asns(E[s], AL[t])); return; }
	CMD("egetc") { s = slot(1); HAVE(E, s); struct loc_country_list* l = loc_database_enumerator_get_countries(E[s]); if (!l) { printf("none\n"); return; } PUT(CL, slot(2), l, loc_country_list_unref); printf("ok\n"); return; }
	CMD("egeta") { s = slot(1); HAVE(E, s); struct loc_as_list* l = loc_database_enumerator_get_asns(E[s]); if (!l) { printf("none\n"); return; } PUT(AL, slot(2), l, loc_as_list_unref); printf("ok\n"); return; }
	CMD("wself") {
		s = slot(1); HAVE(W, s);
		switch (*argvv[2]) {
			case 'v': r = loc_writer_set_vendor(W[s], loc_writer_get_vendor(W[s])); break;
			case 'd': r = loc_writer_set_description(W[s], loc_writer_get_license(W[s])); break;
			default:  r = loc_writer_set_license(W[s], loc_writer_get_license(W[s])); break;
		}
		printf("%d\n", r); return;
	}
	CMD("nselfcc") { s = slot(1); HAVE(N, s); r = loc_network_set_country_code(N[s], loc_network_get_country_code(N[s])); printf("%d\n", r); return; }
	CMD("cselfcont") { s = slot(1); HAVE(C, s); r = loc_country_set_continent_code(C[s], loc_country_get_continent_code(C[s])); printf("%d\n", r); return; }
	CMD("cp") { /* from to */
		char block[65536]; size_t n;
		FILE* in = fopen(str(1), "r"); FILE* out = fopen(str(2), "w");
		if (!in || !out) die("cp");
		while ((n = fread(block, 1, sizeof(block), in)) > 0) if (fwrite(block, 1, n, out) != n) die("cp");
		fclose(in); fclose(out); printf("ok\n"); return;
	}
	CMD("mv") { const char* from = str(1); r = rename(from, str(2)); printf("%d\n", r); return; }
	CMD("ctxswap") { /* a new context; the old one lives on as long as something uses it */
		struct loc_ctx* fresh = NULL;
		r = loc_new(&fresh);
		if (r == 0) {
			loc_set_log_callback(fresh, log_sink, NULL);
			loc_set_log_priority(fresh, loc_get_log_priority(ctx));
			loc_unref(ctx);
			ctx = fresh;
		}
		printf("%d\n", r); return;
	}

	CMD("ctxnew") { /* a new context with its defaults */
		struct loc_ctx* fresh = NULL;
		r = loc_new(&fresh);
		if (r == 0) {
			loc_unref(ctx);
			ctx = fresh;
			contexts[contexts_n].ctx = ctx; contexts[contexts_n].id = contexts_n;
			contexts_n++;
		}
		printf("%d %d\n", r, r ? -1 : loc_get_log_priority(ctx)); return;
	}
	CMD("logcb") { tags[num(1)] = num(1); loc_set_log_callback(ctx, capture_callback, &tags[num(1)]); printf("ok\n"); return; }
	CMD("logfn") { loc_set_log_fn(ctx, capture_fn); printf("ok\n"); return; }
	CMD("logmark") { /* something to look for in the messages on standard error */
		fflush(stdout); fprintf(stderr, "@MARK %ld@\n", num(1)); fflush(stderr); printf("ok\n"); return;
	}
	CMD("logs") { /* what has been received since */
		printf("ok");
		for (size_t i = 0; i < messages_n; i++) {
			struct message* m = &messages[i];
			printf(" | %d %d %d ", m->priority, m->tag, m->ctx);
			puthex(m->fn); printf(" "); puthex(m->text);
			free(m->fn); free(m->text);
		}
		messages_n = 0;
		free(messages); messages = NULL;
		printf("\n"); return;
	}

	/* --- DNS --- */
	CMD("dns") { /* version hexreply|- [alength] */
		const char* h = argvv[2];
		if (strcmp(h, "-") == 0)
			dns_length = -1;
		else {
			dns_length = dns_size = strlen(h + 1) / 2;
			if (argcc > 3) dns_length = num(3);
			for (int i = 0; i < dns_size; i++) dns_reply[i] = nibble(h[1 + 2 * i]) << 4 | nibble(h[2 + 2 * i]);
		}
		dns_queries = 0; dns_name[0] = '\0';
		time_t tt = 0x7eadbeef;
		r = loc_discover_latest_version(ctx, (unsigned int)num(1), &tt);
		printf("%d %lld %d %s\n", r, (long long)tt, dns_queries, dns_queries ? dns_name : "-"); return;
	}

	/* --- context --- */
	CMD("log") { loc_set_log_priority(ctx, num(1)); printf("ok %d %ld\n", loc_get_log_priority(ctx), log_messages); return; }
	CMD("ctxref") { loc_ref(ctx); loc_unref(ctx); printf("ok\n"); return; }
	CMD("afault") { alloc_count = 0; alloc_failed = 0; alloc_fail_at = num(1); alloc_fail_all = num(2); printf("ok\n"); return; }
	CMD("acount") { printf("ok %ld %ld\n", alloc_count, alloc_failed); alloc_fail_at = 0; return; }
	CMD("fds") {
		int n = 0;
		for (int i = 0; i < 4096; i++) if (fcntl(i, F_GETFD) >= 0) n++;
		printf("ok %d\n", n); return;
	}
	CMD("dirty") { dirty(num(1)); printf("ok\n"); return; }
	CMD("sleep1") { usleep(1100000); printf("ok\n"); return; }
	CMD("echo") { printf("ok %s\n", argcc > 1 ? argvv[1] : ""); return; }
	CMD("free") { /* release every object, in the given order of kinds */
		const char* order = argcc > 1 ? argvv[1] : "EDWnNaAcC";
		for (; *order; order++) {
			for (int i = 0; i < SLOTS; i++) {
				switch (*order) {
					case 'E': DROP(E, i, loc_database_enumerator_unref); break;
					case 'D': DROP(D, i, loc_database_unref); break;
					case 'W': DROP(W, i, loc_writer_unref); break;
					case 'n': DROP(N, i, loc_network_unref); break;
					case 'N': DROP(NL, i, loc_network_list_unref); break;
					case 'a': DROP(A, i, loc_as_unref); break;
					case 'A': DROP(AL, i, loc_as_list_unref); break;
					case 'c': DROP(C, i, loc_country_unref); break;
					case 'C': DROP(CL, i, loc_country_list_unref); break;
				}
			}
		}
		printf("ok\n"); return;
	}
	die("unknown command");
}

static int tokenize(char* line, char** out, int max) {
	int n = 0;
	char* save = NULL;
	for (char* p = strtok_r(line, " \n", &save); p && n < max; p = strtok_r(NULL, " \n", &save))
		out[n++] = p;
	return n;
}

int main(int argc, char** argv) {
	signal(SIGXFSZ, SIG_IGN);
	int r = loc_new(&ctx);
	if (r)
		die("loc_new");
	loc_set_log_callback(ctx, log_sink, NULL);
	loc_set_log_priority(ctx, LOG_INFO);

	char* line = NULL;
	size_t size = 0;
	while (getline(&line, &size, stdin) > 0) {
		argcc = tokenize(line, argvv, 512);
		if (!argcc)
			continue;
		command();
		fflush(stdout);
		for (int i = 0; i < argcc; i++) {
			free(decoded[i]);
			decoded[i] = NULL;
		}
	}
	free(line);

	argvv[0] = "free"; argcc = 1;
	command();
	/* the last reference: every object has to have given back its own */
	struct loc_ctx* left = loc_unref(ctx);
	printf("END %d\n", left ? 1 : 0);
	fflush(stdout);
	return 0;
}
