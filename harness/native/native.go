// Package native gives access to the counters of a native library monitor, which is preloaded to the process.
package native

/*
#cgo LDFLAGS: -ldl
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <malloc.h>

static int call_counts(long *out) {
	void (*f)(long*) = (void (*)(long*))dlsym(RTLD_DEFAULT, "verif_soxr_counts");
	if (!f) return 0;
	f(out);
	return 1;
}
static const char* call_error(void) {
	const char* (*f)(void) = (const char* (*)(void))dlsym(RTLD_DEFAULT, "verif_soxr_error");
	if (!f) return NULL;
	return f();
}
static void call_fault(long create_after, long process_after) {
	void (*f)(long,long) = (void (*)(long,long))dlsym(RTLD_DEFAULT, "verif_soxr_fault");
	if (f) f(create_after, process_after);
}
static int call_asan_counts(long *out) {
	void (*f)(long*) = (void (*)(long*))dlsym(RTLD_DEFAULT, "verif_asan_counts");
	if (!f) return 0;
	f(out);
	return 1;
}
static const char* call_asan_error(void) {
	const char* (*f)(void) = (const char* (*)(void))dlsym(RTLD_DEFAULT, "verif_asan_error");
	if (!f) return NULL;
	return f();
}
static size_t heap_used(void) {
	struct mallinfo2 m = mallinfo2();
	return m.uordblks + m.hblkhd;
}
*/
import "C"

// Counts of calls to the native resampler.
type Counts struct {
	Created, Deleted, Live, Process, In, Out int
}

// Soxr returns counters of the preloaded monitor.
func Soxr() (c Counts, ok bool) {
	var out [6]C.long
	if C.call_counts(&out[0]) == 0 {
		return c, false
	}
	return Counts{int(out[0]), int(out[1]), int(out[2]), int(out[3]), int(out[4]), int(out[5])}, true
}

// SoxrError returns the first recorded misuse of the native library.
func SoxrError() string {
	s := C.call_error()
	if s == nil {
		return ""
	}
	return C.GoString(s)
}

// SoxrFault makes the n-th next call of create or process fail. Zero disables the fault.
func SoxrFault(create, process int) {
	C.call_fault(C.long(create), C.long(process))
}

// Memory counts regions that were checked by the preloaded monitor of native memory.
type Memory struct {
	Sanitizer                        bool
	Regions, Bytes                   int
	Resamples, Decodes, Encodes, TOC int
}

// Asan returns counters of the preloaded monitor of native memory.
func Asan() (m Memory, ok bool) {
	var out [7]C.long
	if C.call_asan_counts(&out[0]) == 0 {
		return m, false
	}
	return Memory{out[0] != 0, int(out[1]), int(out[2]), int(out[3]), int(out[4]), int(out[5]), int(out[6])}, true
}

// AsanError returns the first access to a memory that doesn't belong to the caller.
func AsanError() string {
	s := C.call_asan_error()
	if s == nil {
		return ""
	}
	return C.GoString(s)
}

// HeapUsed returns the size of live allocations of native code.
func HeapUsed() int { return int(C.heap_used()) }
