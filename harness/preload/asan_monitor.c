// Preloaded monitor of memory that is passed to native audio libraries. It runs together with the address sanitizer:
// the libraries themselves aren't instrumented, so that each region is checked here before the call.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

typedef void *(*poisoned_t)(void *, size_t);

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long regions, bytes, soxr_calls, decodes, encodes, headers;
static char errbuf[512];

static poisoned_t poisoned(void) {
	static poisoned_t f;
	if (!f) f = (poisoned_t)dlsym(RTLD_DEFAULT, "__asan_region_is_poisoned");
	return f;
}

static void misuse(const char *what, const void *p, size_t n, const void *at) {
	if (!errbuf[0]) snprintf(errbuf, sizeof(errbuf), "%s (region %p of %zu bytes, bad at %+ld)", what, p, n, (long)((char *)at - (char *)p));
}

static int region(const char *what, const void *p, size_t n) {
	poisoned_t f = poisoned();
	if (!p || !n || !f) return 1;
	void *at = f((void *)p, n);
	pthread_mutex_lock(&mu);
	regions++;
	bytes += n;
	if (at) misuse(what, p, n, at);
	pthread_mutex_unlock(&mu);
	return at == NULL;
}

static void add(long *p) {
	pthread_mutex_lock(&mu);
	++*p;
	pthread_mutex_unlock(&mu);
}

void verif_asan_counts(long *out) {
	pthread_mutex_lock(&mu);
	out[0] = poisoned() != NULL; out[1] = regions; out[2] = bytes; out[3] = soxr_calls; out[4] = decodes; out[5] = encodes; out[6] = headers;
	pthread_mutex_unlock(&mu);
}
const char *verif_asan_error(void) { return errbuf[0] ? errbuf : NULL; }

const char *soxr_process(void *p, void const *in, size_t ilen, size_t *idone, void *out, size_t olen, size_t *odone) {
	static const char *(*real)(void *, void const *, size_t, size_t *, void *, size_t, size_t *);
	if (!real) real = dlsym(RTLD_NEXT, "soxr_process");
	add(&soxr_calls);
	int ok = region("resampler reads outside of the input", in, ilen * 2);
	ok &= region("resampler writes outside of the output", out, olen * 2);
	if (!ok) return "bad memory"; // keep the process alive to report this
	const char *e = real(p, in, ilen, idone, out, olen, odone);
	if (idone && in && *idone > ilen) misuse("resampler consumed more than the input", in, *idone, in);
	if (odone && *odone > olen) misuse("resampler produced more than the output", out, *odone, out);
	return e;
}

// Channels of live decoders, by the address of their state.
#define MAXD 4096
static struct { void *p; int ch; } decs[MAXD];
static int ndecs;

int opus_decoder_init(void *st, int32_t fs, int ch) {
	static int (*real)(void *, int32_t, int);
	static int (*size)(int);
	if (!real) { real = dlsym(RTLD_NEXT, "opus_decoder_init"); size = dlsym(RTLD_NEXT, "opus_decoder_get_size"); }
	if (!region("opus writes outside of the decoder", st, size(ch))) return -1;
	pthread_mutex_lock(&mu);
	int i = 0;
	while (i < ndecs && decs[i].p != st) i++;
	if (i == ndecs) { if (ndecs < MAXD) ndecs++; else i = (int)(((uintptr_t)st >> 6) % MAXD); }
	decs[i].p = st; decs[i].ch = ch;
	pthread_mutex_unlock(&mu);
	return real(st, fs, ch);
}

int opus_decode(void *st, unsigned char const *data, int32_t len, int16_t *pcm, int frames, int fec) {
	static int (*real)(void *, unsigned char const *, int32_t, int16_t *, int, int);
	if (!real) real = dlsym(RTLD_NEXT, "opus_decode");
	int ch = 1;
	pthread_mutex_lock(&mu);
	decodes++;
	for (int i = 0; i < ndecs; i++) if (decs[i].p == st) ch = decs[i].ch;
	pthread_mutex_unlock(&mu);
	int ok = region("opus reads outside of the packet", data, len > 0 ? len : 0);
	ok &= region("opus writes outside of the audio", pcm, frames > 0 ? (size_t)frames * ch * 2 : 0);
	if (!ok) return -1;
	return real(st, data, len, pcm, frames, fec);
}

int32_t opus_encode(void *st, int16_t const *pcm, int frames, unsigned char *data, int32_t max) {
	static int32_t (*real)(void *, int16_t const *, int, unsigned char *, int32_t);
	if (!real) real = dlsym(RTLD_NEXT, "opus_encode");
	add(&encodes);
	// At least one channel is read.
	int ok = region("opus reads outside of the audio", pcm, frames > 0 ? (size_t)frames * 2 : 0);
	ok &= region("opus writes outside of the packet", data, max > 0 ? max : 0);
	if (!ok) return -1;
	return real(st, pcm, frames, data, max);
}

int opus_packet_get_nb_channels(unsigned char const *data) {
	static int (*real)(unsigned char const *);
	if (!real) real = dlsym(RTLD_NEXT, "opus_packet_get_nb_channels");
	add(&headers);
	if (!region("opus reads outside of the packet header", data, 1)) return 1;
	return real(data);
}
