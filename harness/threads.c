/*
	Several threads, each with a context and objects of its own.

	threads <seed> <threads> <rounds> <scratch> <database>...

	Every thread performs a pseudo-random sequence of calls, which is determined by its number, and
	folds everything it observes into a digest per call. All sequences are run one after another
	first, then concurrently; the digests have to be the same.
*/
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <arpa/nameser.h>
#include <errno.h>
#include <netdb.h>
#include <pthread.h>
#include <resolv.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>

#include <libloc/libloc.h>
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#include <libloc/database.h>
#include <libloc/network.h>
#include <libloc/network-list.h>
#include <libloc/resolv.h>
#include <libloc/writer.h>

#define MAXROUNDS 100000
#define KINDS 12

static unsigned long seed;
static int rounds;
static const char* scratch;
static char** databases;
static int ndatabases;
static const char* public_key;
static const char* private_key;
static pthread_barrier_t barrier;
static int concurrent = 0;
static volatile int inside[KINDS];
static long overlaps[KINDS][KINDS];

struct self {
	int id;
	uint64_t state;
	struct loc_ctx* ctx;
	uint64_t digest;
	uint64_t* log;
	char text[256];
};

static uint64_t next(struct self* s) {
	uint64_t x = s->state;
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	s->state = x;
	return x * 0x2545F4914F6CDD1DULL;
}

static void put(struct self* s, const void* p, size_t n) {
	const unsigned char* c = p;
	for (size_t i = 0; i < n; i++) {
		s->digest ^= c[i];
		s->digest *= 0x100000001b3ULL;
	}
}
static void put_str(struct self* s, const char* p) { put(s, p ? p : "\1", p ? strlen(p) + 1 : 1); }
static void put_int(struct self* s, long i) { put(s, &i, sizeof(i)); }

static void put_network(struct self* s, struct loc_network* n) {
	put_str(s, loc_network_str(n));
	const char* a = loc_network_format_first_address(n);
	const char* b = loc_network_format_last_address(n);
	if (next(s) % 4 == 0) sched_yield();
	put_str(s, a);
	put_str(s, b);
	put_str(s, loc_network_get_country_code(n));
	put_int(s, loc_network_get_asn(n));
	put_int(s, loc_network_prefix(n));
	put(s, loc_network_get_first_address(n), 16);
}
static void put_list(struct self* s, struct loc_network_list* l) {
	put_int(s, loc_network_list_size(l));
	for (size_t i = 0; i < loc_network_list_size(l); i++) {
		struct loc_network* n = loc_network_list_get(l, i);
		put_network(s, n);
		loc_network_unref(n);
	}
}

static void log_sink(struct loc_ctx* c, void* data, int priority, const char* file, int line,
		const char* fn, const char* format, va_list args) {
	char buffer[4096];
	vsnprintf(buffer, sizeof(buffer), format, args);
}

/* the name server of the tests */
int __wrap_res_query(const char* dname, int class, int type, unsigned char* answer, int anslen) {
	unsigned char reply[512];
	static const unsigned char head[12] = { 1, 2, 0x81, 0x80, 0, 1, 0, 1, 0, 0, 0, 0 };
	int n = 0;
	memcpy(reply, head, 12); n = 12;
	int version = 0;
	sscanf(dname, "_v%d", &version);
	char copy[256]; snprintf(copy, sizeof(copy), "%s", dname);
	char* save = NULL;
	for (char* p = strtok_r(copy, ".", &save); p; p = strtok_r(NULL, ".", &save)) {
		reply[n++] = strlen(p); memcpy(reply + n, p, strlen(p)); n += strlen(p);
	}
	reply[n++] = 0;
	memcpy(reply + n, "\0\x10\0\1", 4); n += 4;
	char text[64];
	snprintf(text, sizeof(text), "Tue, 14 Nov 2023 22:%02d:20 GMT", version % 60);
	int l = strlen(text);
	memcpy(reply + n, "\xc0\x0c\0\x10\0\1\0\0\0\5", 10); n += 10;
	reply[n++] = 0; reply[n++] = l + 1; reply[n++] = l;
	memcpy(reply + n, text, l); n += l;
	if (n > anslen) return -1;
	memcpy(answer, reply, n);
	return n;
}

static void random_network(struct self* s, char* out, size_t size) {
	uint64_t r = next(s);
	if (r & 1)
		snprintf(out, size, "%u.%u.%u.%u/%u", (unsigned)(r >> 8) & 255, (unsigned)(r >> 16) & 255, (unsigned)(r >> 24) & 255,
			(unsigned)(r >> 32) & 255, (unsigned)(r >> 40) % 33);
	else
		snprintf(out, size, "%x:%x:%x::%x/%u", 0x2000 + ((unsigned)(r >> 8) & 0xfff), (unsigned)(r >> 16) & 0xffff, (unsigned)(r >> 24) & 0xffff,
			(unsigned)(r >> 32) & 0xffff, 16 + (unsigned)(r >> 40) % 113);
}

static void do_network(struct self* s) {
	struct loc_network* n = NULL; struct loc_network* m = NULL; struct loc_network* a = NULL; struct loc_network* b = NULL;
	random_network(s, s->text, sizeof(s->text));
	int r = loc_network_new_from_string(s->ctx, &n, s->text);
	put_int(s, r);
	if (r) return;
	put_network(s, n);
	random_network(s, s->text, sizeof(s->text));
	if (loc_network_new_from_string(s->ctx, &m, s->text) == 0) {
		put_int(s, loc_network_cmp(n, m) < 0);
		struct loc_network_list* l = loc_network_exclude(n, m);
		put_int(s, !!l);
		if (l) { put_list(s, l); loc_network_list_unref(l); }
		loc_network_unref(m);
	}
	if (loc_network_subnets(n, &a, &b) == 0) {
		put_network(s, a);
		put_network(s, b);
		struct loc_network_list* l = loc_network_exclude(n, a);
		if (l) { put_list(s, l); loc_network_list_unref(l); }
		loc_network_unref(a); loc_network_unref(b);
	}
	char* p = loc_network_reverse_pointer(n, next(s) & 1 ? NULL : "example.com");
	put_str(s, p);
	free(p);
	loc_network_unref(n);
}

static void do_invalid(struct self* s) {
	static const char* bad[] = { "1.2.3.4/33", "::/129", "x", "1.2.3", "1.2.3.4/x", "2001:db8::/64/3", "", "1.2.3.4/-1" };
	struct loc_network* n = NULL;
	errno = 0;
	int r = loc_network_new_from_string(s->ctx, &n, bad[next(s) % 8]);
	put_int(s, r); put_int(s, errno);
	if (r == 0) loc_network_unref(n);
}

static void do_lists(struct self* s) {
	struct loc_as_list* al; struct loc_country_list* cl; struct loc_network_list* nl;
	if (loc_as_list_new(s->ctx, &al) || loc_country_list_new(s->ctx, &cl) || loc_network_list_new(s->ctx, &nl)) abort();
	for (int i = 0; i < 20; i++) {
		struct loc_as* a; struct loc_country* c; struct loc_network* n;
		char cc[3] = { 'A' + next(s) % 26, 'A' + next(s) % 26, 0 };
		loc_as_new(s->ctx, &a, next(s)); snprintf(s->text, sizeof(s->text), "Name %lu", next(s) % 1000);
		loc_as_set_name(a, s->text); loc_as_list_append(al, a); loc_as_unref(a);
		if (loc_country_new(s->ctx, &c, cc) == 0) { loc_country_set_name(c, s->text); loc_country_list_append(cl, c); loc_country_unref(c); }
		random_network(s, s->text, sizeof(s->text));
		if (loc_network_new_from_string(s->ctx, &n, s->text) == 0) { loc_network_list_push(nl, n); loc_network_unref(n); }
	}
	loc_as_list_sort(al); loc_country_list_sort(cl);
	for (size_t i = 0; i < loc_as_list_size(al); i++) { struct loc_as* a = loc_as_list_get(al, i); put_int(s, loc_as_get_number(a)); put_str(s, loc_as_get_name(a)); loc_as_unref(a); }
	for (size_t i = 0; i < loc_country_list_size(cl); i++) { struct loc_country* c = loc_country_list_get(cl, i); put_str(s, loc_country_get_code(c)); put_str(s, loc_country_get_name(c)); loc_country_unref(c); }
	put_list(s, nl);
	loc_network_list_dump(nl);
	loc_as_list_unref(al); loc_country_list_unref(cl); loc_network_list_unref(nl);
}

static struct loc_database* open_database(struct self* s, const char* path) {
	FILE* f = fopen(path, "r");
	struct loc_database* db = NULL;
	if (!f) abort();
	int r = loc_database_new(s->ctx, &db, f);
	fclose(f);
	put_int(s, r);
	return r ? NULL : db;
}

static void put_enumeration(struct self* s, struct loc_database* db, int mode, int flags, int filter, int limit) {
	struct loc_database_enumerator* e = NULL;
	if (loc_database_enumerator_new(&e, db, mode, flags)) { put_int(s, -1); return; }
	if (filter == 1) loc_database_enumerator_set_family(e, AF_INET);
	if (filter == 2) loc_database_enumerator_set_family(e, AF_INET6);
	if (filter == 3) loc_database_enumerator_set_flag(e, 1);
	if (filter == 4) loc_database_enumerator_set_string(e, "a");
	if (filter == 5) {
		struct loc_country_list* l; struct loc_country* c;
		loc_country_list_new(s->ctx, &l); loc_country_new(s->ctx, &c, "DE"); loc_country_list_append(l, c);
		loc_country_unref(c); loc_database_enumerator_set_countries(e, l); loc_country_list_unref(l);
	}
	for (int i = 0; i < limit; i++) {
		if (mode == LOC_DB_ENUMERATE_ASES) {
			struct loc_as* a = NULL;
			if (loc_database_enumerator_next_as(e, &a) || !a) break;
			put_int(s, loc_as_get_number(a)); put_str(s, loc_as_get_name(a)); loc_as_unref(a);
		} else if (mode == LOC_DB_ENUMERATE_COUNTRIES) {
			struct loc_country* c = NULL;
			if (loc_database_enumerator_next_country(e, &c) || !c) break;
			put_str(s, loc_country_get_code(c)); put_str(s, loc_country_get_name(c)); loc_country_unref(c);
		} else {
			struct loc_network* n = NULL;
			if (loc_database_enumerator_next_network(e, &n) || !n) break;
			put_network(s, n); loc_network_unref(n);
		}
	}
	loc_database_enumerator_unref(e);
}

static void do_lookup(struct self* s) {
	struct loc_database* db = open_database(s, databases[next(s) % ndatabases]);
	if (!db) return;
	for (int i = 0; i < 30; i++) {
		struct loc_network* n = NULL;
		uint64_t r = next(s);
		if (r & 1) snprintf(s->text, sizeof(s->text), "%u.%u.%u.%u", (unsigned)(r >> 8) & 255, (unsigned)(r >> 16) & 255, (unsigned)(r >> 24) & 255, (unsigned)(r >> 32) & 255);
		else snprintf(s->text, sizeof(s->text), "%x:%x::", (unsigned)(r >> 8) & 0xffff, (unsigned)(r >> 24) & 0xffff);
		put_int(s, loc_database_lookup_from_string(db, s->text, &n));
		if (n) { put_network(s, n); loc_network_unref(n); }
		struct loc_as* a = NULL;
		if (loc_database_get_as(db, &a, r % 300) == 0 && a) { put_int(s, loc_as_get_number(a)); put_str(s, loc_as_get_name(a)); loc_as_unref(a); }
		struct loc_country* c = NULL; char cc[3] = { 'A' + r % 26, 'A' + (r >> 5) % 26, 0 };
		if (loc_database_get_country(db, &c, cc) == 0 && c) { put_str(s, loc_country_get_name(c)); loc_country_unref(c); }
	}
	put_str(s, loc_database_get_vendor(db)); put_int(s, loc_database_created_at(db));
	loc_database_unref(db);
}

static void do_enumerate(struct self* s, int mode, int flags) {
	struct loc_database* db = open_database(s, databases[next(s) % ndatabases]);
	if (!db) return;
	put_enumeration(s, db, mode, flags, next(s) % 6, 200);
	loc_database_unref(db);
}

static void do_verify(struct self* s) {
	struct loc_database* db = open_database(s, databases[next(s) % ndatabases]);
	if (!db) return;
	FILE* f = fopen(next(s) & 1 ? public_key : private_key, "r");
	put_int(s, loc_database_verify(db, f));
	fclose(f);
	loc_database_unref(db);
}

static void do_write(struct self* s) {
	struct loc_writer* w = NULL;
	FILE* key = next(s) & 1 ? fopen(private_key, "r") : NULL;
	put_int(s, loc_writer_new(s->ctx, &w, key, NULL));
	if (key) fclose(key);
	loc_writer_set_vendor(w, "Vendor"); loc_writer_set_description(w, "Description");
	for (int i = 0; i < 25; i++) {
		struct loc_network* n = NULL; struct loc_as* a = NULL; struct loc_country* c = NULL;
		random_network(s, s->text, sizeof(s->text));
		if (loc_writer_add_network(w, &n, s->text) == 0) {
			loc_network_set_asn(n, next(s) % 5); loc_network_set_country_code(n, next(s) & 1 ? "DE" : "FR"); loc_network_unref(n);
		}
		if (loc_writer_add_as(w, &a, next(s) % 1000) == 0) { snprintf(s->text, sizeof(s->text), "AS name %lu", next(s) % 100); loc_as_set_name(a, s->text); loc_as_unref(a); }
		char cc[3] = { 'A' + next(s) % 26, 'A' + next(s) % 26, 0 };
		if (loc_writer_add_country(w, &c, cc) == 0) { loc_country_set_name(c, s->text); loc_country_unref(c); }
	}
	char path[512];
	snprintf(path, sizeof(path), "%s/thread-%d.db", scratch, s->id);
	FILE* f = fopen(path, "w+");
	put_int(s, loc_writer_write(w, f, LOC_DATABASE_VERSION_1));
	fclose(f);
	struct loc_database* db = open_database(s, path);
	if (db) {
		put_enumeration(s, db, LOC_DB_ENUMERATE_NETWORKS, 0, 0, 1000);
		put_enumeration(s, db, LOC_DB_ENUMERATE_ASES, 0, 0, 1000);
		put_enumeration(s, db, LOC_DB_ENUMERATE_COUNTRIES, 0, 0, 1000);
		f = fopen(public_key, "r"); put_int(s, loc_database_verify(db, f)); fclose(f);
		loc_database_unref(db);
	}
	loc_writer_unref(w);
	unlink(path);
}

static void do_codes(struct self* s) {
	for (int i = 0; i < 50; i++) {
		char cc[3] = { 'A' + next(s) % 26, '0' + next(s) % 43, 0 };
		put_int(s, loc_country_code_is_valid(cc)); put_int(s, loc_country_special_code_to_flag(cc));
	}
}

static void do_discover(struct self* s) {
	time_t t = 0;
	put_int(s, loc_discover_latest_version(s->ctx, next(s) % 60, &t));
	put_int(s, t);
}

static void do_context(struct self* s) {
	struct loc_ctx* c = NULL;
	if (loc_new(&c)) abort();
	put_int(s, loc_get_log_priority(c));
	loc_set_log_priority(c, next(s) % 8);
	put_int(s, loc_get_log_priority(c));
	loc_unref(c);
}

static void step(struct self* s, int kind) {
	switch (kind) {
		case 0: do_network(s); break;
		case 1: do_invalid(s); break;
		case 2: do_lists(s); break;
		case 3: do_lookup(s); break;
		case 4: do_enumerate(s, LOC_DB_ENUMERATE_NETWORKS, 0); break;
		case 5: do_enumerate(s, LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATOR_FLAGS_FLATTEN); break;
		case 6: do_enumerate(s, LOC_DB_ENUMERATE_BOGONS, 0); break;
		case 7: do_enumerate(s, next(s) & 1 ? LOC_DB_ENUMERATE_ASES : LOC_DB_ENUMERATE_COUNTRIES, 0); break;
		case 8: do_verify(s); break;
		case 9: do_write(s); break;
		case 10: do_codes(s); do_context(s); break;
		case 11: do_discover(s); break;
	}
}

static void* body(void* arg) {
	struct self* s = arg;
	s->state = seed * 1000003ULL + s->id * 7919ULL + 88172645463325252ULL;
	for (int i = 0; i < 20; i++) next(s);
	if (concurrent) pthread_barrier_wait(&barrier);
	if (loc_new(&s->ctx)) abort();
	loc_set_log_callback(s->ctx, log_sink, NULL);
	loc_set_log_priority(s->ctx, next(s) & 1 ? LOG_DEBUG : LOG_ERR);
	for (int i = 0; i < rounds; i++) {
		int kind = next(s) % KINDS;
		s->digest = 0xcbf29ce484222325ULL;
		if (concurrent) {
			__atomic_add_fetch(&inside[kind], 1, __ATOMIC_RELAXED);
			for (int k = 0; k < KINDS; k++)
				if (__atomic_load_n(&inside[k], __ATOMIC_RELAXED) > (k == kind))
					__atomic_add_fetch(&overlaps[kind][k], 1, __ATOMIC_RELAXED);
		}
		step(s, kind);
		if (concurrent) __atomic_add_fetch(&inside[kind], -1, __ATOMIC_RELAXED);
		if (s->log[i] && s->log[i] != s->digest) {
			printf("DIFFERENT thread=%d round=%d kind=%d\n", s->id, i, kind);
			fflush(stdout);
		}
		s->log[i] = s->digest;
	}
	if (loc_unref(s->ctx)) printf("LEAK thread=%d\n", s->id);
	return NULL;
}

int main(int argc, char** argv) {
	if (argc < 8) return 77;
	seed = strtoul(argv[1], NULL, 10);
	int n = atoi(argv[2]);
	rounds = atoi(argv[3]);
	scratch = argv[4];
	public_key = argv[5];
	private_key = argv[6];
	databases = argv + 7; ndatabases = argc - 7;
	struct self* all = calloc(n, sizeof(*all));
	for (int i = 0; i < n; i++) {
		all[i].id = i;
		all[i].log = calloc(rounds, sizeof(uint64_t));
		body(&all[i]);
	}
	pthread_barrier_init(&barrier, NULL, n);
	concurrent = 1;
	pthread_t* t = calloc(n, sizeof(*t));
	for (int i = 0; i < n; i++) if (pthread_create(&t[i], NULL, body, &all[i])) abort();
	for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
	long pairs = 0, events = 0;
	for (int i = 0; i < KINDS; i++) for (int k = 0; k < KINDS; k++) { pairs += overlaps[i][k] > 0; events += overlaps[i][k]; }
	printf("OK pairs=%ld events=%ld digest=%lx\n", pairs, events, all[0].log[rounds - 1]);
	printf("OVERLAP");
	for (int i = 0; i < KINDS; i++) for (int k = 0; k < KINDS; k++) if (overlaps[i][k]) printf(" %d-%d", i, k);
	printf("\n");
	for (int i = 0; i < n; i++) free(all[i].log);
	free(all); free(t);
	return 0;
}
