// Interface between the harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
long vp_param(int i);                                             // concrete job parameter
void vp_sym(void *p, size_t n, const char *name);                 // make n bytes symbolic inputs
void vp_assume(bool c);
void vp_assert(bool c, const char *msg);
void vp_assert_eq(const void *a, const void *b, size_t n, const char *msg);
void vp_cover(const char *name);                                  // reachability witness
int vp_is_const(const void *p, size_t n);
int vp_havoc2(void *a, size_t na, void *b, size_t nb);            // replace symbolic bytes consistently by fresh ones
void vp_havoc_all(void);                                          // the same for all of memory
int vp_try(void (*f)(void *), void *arg);                         // 0 returned, 1 exception, 2 exit, 3 abort
long vp_live_heap(void);                                          // number of live heap objects
void vp_record(const void *p, size_t n, const char *name);
void vp_uninit(void *p, size_t n);
void *vp_alloc(size_t n);                                         // heap object of exactly n bytes
void vp_free(void *p);
void *vp_trip_alloc(size_t n, void (*past)(size_t read));         // the first read past the end of this object calls past(bytes read so far) and ends the path
void *vp_zeros(uint64_t n);                                       // native: n zero bytes, null if there is no room
int vp_native(void);                                              // 1 in the native runtime
}
