/* A debugging heap that is preloaded into the worker processes. It knows exactly what is allocated,
   and stops the process if a block is overrun, freed twice, freed without being allocated, or
   written to after it was freed. New and freed blocks are filled with patterns. */
#define _GNU_SOURCE
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

typedef struct {
    uint64_t magic, size, offset, pad;
} head;

#define LIVE 0x4c6956654c695665ull
#define DEAD 0x6445614464456144ull
#define CANARY 0xCB
#define TAIL 16
#define QUARANTINE 512
#define QUARANTINE_BYTES (8u << 20)

static volatile long long live_bytes, live_blocks;
static head *quarantine[QUARANTINE];
static size_t q_at, q_bytes;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

long long vh_heap_bytes(void) { return live_bytes; }
long long vh_heap_blocks(void) { return live_blocks; }

static void stop(const char *msg) {
    ssize_t r = write(2, "heap: ", 6);
    r = write(2, msg, strlen(msg));
    r = write(2, "\n", 1);
    (void)r;
    abort();
}

static void *make(size_t size, size_t align, int zero) {
    if (size > (size_t)1 << 40) {
        errno = ENOMEM;
        return NULL;
    }
    size_t offset = align <= sizeof(head) ? sizeof(head) : align;
    char *base = align <= 16 ? __libc_malloc(offset + size + TAIL) : __libc_memalign(align, offset + size + TAIL);
    if (!base) {
        errno = ENOMEM;
        return NULL;
    }
    head *h = (head *)(base + offset) - 1;
    h->magic = LIVE;
    h->size = size;
    h->offset = offset;
    memset(base + offset, zero ? 0 : 0xA5, size);
    memset(base + offset + size, CANARY, TAIL);
    __sync_fetch_and_add(&live_bytes, (long long)size);
    __sync_fetch_and_add(&live_blocks, 1);
    return base + offset;
}

static head *check(void *p) {
    head *h = (head *)p - 1;
    if (((uintptr_t)p & 15) || (h->magic != LIVE && h->magic != DEAD)) stop("a block is freed that isn't allocated, or something wrote before its start");
    if (h->magic == DEAD) stop("a block is freed twice");
    for (int i = 0; i < TAIL; i++)
        if (((unsigned char *)p)[h->size + i] != CANARY) stop("something wrote behind the end of a block");
    return h;
}

static void release(head *h) {
    unsigned char *p = (unsigned char *)(h + 1);
    for (size_t i = 0; i < h->size; i++)
        if (p[i] != 0xDB) stop("something wrote to a block after it was freed");
    h->magic = 0;
    __libc_free(p - h->offset);
}

void *malloc(size_t n) { return make(n, 16, 0); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return make(n, 16, 1);
}
void free(void *p) {
    if (!p) return;
    int e = errno;
    head *h = check(p);
    h->magic = DEAD;
    memset(p, 0xDB, h->size);
    __sync_fetch_and_sub(&live_bytes, (long long)h->size);
    __sync_fetch_and_sub(&live_blocks, 1);
    if (h->size > QUARANTINE_BYTES / 8) {
        release(h);
    } else {
        pthread_mutex_lock(&lock);
        q_bytes += h->size;
        head *old = quarantine[q_at];
        quarantine[q_at] = h;
        q_at = (q_at + 1) % QUARANTINE;
        if (old) {
            q_bytes -= old->size;
            release(old);
        }
        for (size_t i = q_at; q_bytes > QUARANTINE_BYTES; i = (i + 1) % QUARANTINE)
            if (quarantine[i]) {
                q_bytes -= quarantine[i]->size;
                release(quarantine[i]);
                quarantine[i] = NULL;
            }
        pthread_mutex_unlock(&lock);
    }
    errno = e;
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    head *h = check(p);
    if (n == 0) {
        free(p);
        return NULL;
    }
    void *q = malloc(n);
    if (!q) return NULL;
    memcpy(q, p, n < h->size ? n : h->size);
    free(p);
    return q;
}
void *reallocarray(void *p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return realloc(p, n);
}
void *memalign(size_t align, size_t n) { return make(n, align < 16 ? 16 : align, 0); }
void *aligned_alloc(size_t align, size_t n) { return memalign(align, n); }
int posix_memalign(void **out, size_t align, size_t n) {
    int e = errno;
    void *p = memalign(align, n);
    errno = e;
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void *p) { return p ? ((head *)p - 1)->size : 0; }
