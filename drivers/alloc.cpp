// The allocators the library comes with.
#include "drv.h"
#include "mfast/arena_allocator.h"
#include <new>
using namespace mfast;
extern "C" {
uint64_t vf_arena_size() { return sizeof(arena_allocator); }
void vf_arena(void *p) { new (p) arena_allocator; }
void vf_arena_end(arena_allocator *a) { a->~arena_allocator(); }
uint64_t vf_arena_reset(arena_allocator *a) { return a->reset(); }
allocator *vf_arena_base(arena_allocator *a) { return a; }
allocator *vf_malloc() { return malloc_allocator::instance(); }
void *vf_allocate(allocator *a, uint64_t n) { return a->allocate(n); }
uint64_t vf_reallocate(allocator *a, void **p, uint64_t old, uint64_t n) { return a->reallocate(*p, old, n); }
void vf_deallocate(allocator *a, void *p, uint64_t n) { a->deallocate(p, n); }
void *vf_new_in(arena_allocator *a, uint64_t n) { return operator new(n, *a); }
void *vf_newa_in(arena_allocator *a, uint64_t n) { return operator new[](n, *a); }
}
