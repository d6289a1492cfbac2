// Preloaded monitor of the native resampler: tracks handles, and records their misuse.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef void *soxr_t;
typedef const char *soxr_error_t;

#define MAXH 65536
static struct { soxr_t p; int live; int busy; } tab[MAXH];
static int ntab;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long created, deleted, live, process, total_in, total_out;
static long fault_create, fault_process;
static char errbuf[512];

static void misuse(const char *what, soxr_t p) {
	if (!errbuf[0]) snprintf(errbuf, sizeof(errbuf), "%s (handle %p)", what, p);
}

static int find(soxr_t p) {
	for (int i = ntab - 1; i >= 0; i--) if (tab[i].p == p) return i;
	return -1;
}

void verif_soxr_counts(long *out) {
	pthread_mutex_lock(&mu);
	out[0] = created; out[1] = deleted; out[2] = live; out[3] = process; out[4] = total_in; out[5] = total_out;
	pthread_mutex_unlock(&mu);
}
const char *verif_soxr_error(void) { return errbuf[0] ? errbuf : NULL; }
void verif_soxr_fault(long c, long p) {
	pthread_mutex_lock(&mu);
	fault_create = c; fault_process = p;
	pthread_mutex_unlock(&mu);
}

soxr_t soxr_create(double ir, double orate, unsigned ch, soxr_error_t *e, void const *a, void const *b, void const *c) {
	static soxr_t (*real)(double, double, unsigned, soxr_error_t *, void const *, void const *, void const *);
	if (!real) real = dlsym(RTLD_NEXT, "soxr_create");
	pthread_mutex_lock(&mu);
	int fail = fault_create > 0 && --fault_create == 0;
	pthread_mutex_unlock(&mu);
	if (fail) { if (e) *e = "injected failure"; return NULL; }
	soxr_t p = real(ir, orate, ch, e, a, b, c);
	if (!p) return p;
	pthread_mutex_lock(&mu);
	int i = find(p);
	if (i >= 0 && tab[i].live) misuse("allocator returned a live handle", p);
	if (i < 0) {
		if (ntab < MAXH) i = ntab++;
		else { misuse("too many handles", p); i = MAXH - 1; }
	}
	tab[i].p = p; tab[i].live = 1; tab[i].busy = 0;
	created++; live++;
	pthread_mutex_unlock(&mu);
	return p;
}

void soxr_delete(soxr_t p) {
	static void (*real)(soxr_t);
	if (!real) real = dlsym(RTLD_NEXT, "soxr_delete");
	pthread_mutex_lock(&mu);
	int i = find(p);
	if (i < 0 || !tab[i].live) {
		misuse("handle is deleted twice", p);
		pthread_mutex_unlock(&mu);
		return; // keep the process alive to report this
	}
	if (tab[i].busy) misuse("handle is deleted while it's used", p);
	tab[i].live = 0;
	deleted++; live--;
	pthread_mutex_unlock(&mu);
	real(p);
}

soxr_error_t soxr_process(soxr_t p, void const *in, size_t ilen, size_t *idone, void *out, size_t olen, size_t *odone) {
	static soxr_error_t (*real)(soxr_t, void const *, size_t, size_t *, void *, size_t, size_t *);
	if (!real) real = dlsym(RTLD_NEXT, "soxr_process");
	pthread_mutex_lock(&mu);
	int i = find(p);
	if (i < 0 || !tab[i].live) {
		misuse("handle is used after it was deleted", p);
		pthread_mutex_unlock(&mu);
		return "used after delete";
	}
	if (tab[i].busy) misuse("handle is used by two threads at once", p);
	tab[i].busy++;
	process++;
	int fail = fault_process > 0 && --fault_process == 0;
	pthread_mutex_unlock(&mu);
	soxr_error_t e;
	size_t od = 0, id = 0;
	if (fail) {
		e = "injected failure";
		if (idone) *idone = 0;
		if (odone) *odone = 0;
	} else {
		e = real(p, in, ilen, idone ? idone : &id, out, olen, odone ? odone : &od);
	}
	pthread_mutex_lock(&mu);
	tab[i].busy--;
	if (in) total_in += idone ? *idone : id;
	total_out += odone ? *odone : od;
	pthread_mutex_unlock(&mu);
	return e;
}
