/* Counts the live heap of a process: preloaded into the server, it keeps the number of live
 * bytes and blocks in the file named by HIRMON_HEAP (mapped, 16 bytes). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long local[2];
static long *volatile count = local;

__attribute__((constructor)) static void start(void) {
  const char *f = getenv("HIRMON_HEAP");
  int fd = f ? open(f, O_RDWR | O_CLOEXEC) : -1;
  if (fd < 0) return;
  void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p == MAP_FAILED) return;
  long *c = p;
  c[0] = local[0];
  c[1] = local[1];
  count = c;
}

static void *gain(void *p) {
  if (p) {
    __atomic_add_fetch(&count[0], (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    __atomic_add_fetch(&count[1], 1, __ATOMIC_RELAXED);
  }
  return p;
}
static void lose(void *p) {
  if (p) {
    __atomic_sub_fetch(&count[0], (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    __atomic_sub_fetch(&count[1], 1, __ATOMIC_RELAXED);
  }
}

void *malloc(size_t n) { return gain(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return gain(__libc_calloc(a, b)); }
void free(void *p) {
  lose(p);
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  long old = p ? (long)malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (q || !n) {
    if (p) {
      __atomic_sub_fetch(&count[0], old, __ATOMIC_RELAXED);
      __atomic_sub_fetch(&count[1], 1, __ATOMIC_RELAXED);
    }
    gain(q);
  }
  return q;
}
void *memalign(size_t a, size_t n) { return gain(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return gain(__libc_memalign(a, n)); }
int posix_memalign(void **out, size_t a, size_t n) {
  void *p = gain(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
