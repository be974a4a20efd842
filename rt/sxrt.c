/* Native side of the __sx_* interface: replays an assignment found by the solver. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>

static int opened;
static FILE *in;
static uint64_t next(int bytes) {
    if (!opened) {
        opened = 1;
        const char *p = getenv("SX_INPUTS");
        in = p ? fopen(p, "r") : NULL;
    }
    unsigned w;
    unsigned long long v;
    if (in && fscanf(in, "%u %llu", &w, &v) == 2) {
        if ((int)w != bytes) {
            printf("SX_DIVERGED input of %u bytes where %d were asked for\n", w, bytes);
            exit(78);
        }
        return v;
    }
    return 0; /* not constrained by the failing path */
}
uint8_t __sx_u8(void) { return (uint8_t)next(1); }
uint16_t __sx_u16(void) { return (uint16_t)next(2); }
uint32_t __sx_u32(void) { return (uint32_t)next(4); }
uint64_t __sx_u64(void) { return next(8); }
void __sx_assume(uint8_t c) {
    if (!c) {
        printf("SX_ASSUME\n");
        exit(77);
    }
}
void __sx_fail(const char *p, size_t n) {
    printf("SX_FAIL %.*s\n", (int)n, p);
    fflush(stdout);
    exit(1);
}
void __sx_cover(uint32_t id) {
    if (getenv("SX_LOG")) printf("cover %u\n", id);
}
uint8_t __sx_fork(uint8_t v) { return v; }
void __sx_log(uint64_t v) {
    if (getenv("SX_LOG")) printf("log %llu\n", (unsigned long long)v);
}
static pthread_t th[64];
static int nth;
struct start { void (*f)(uintptr_t); uintptr_t arg; };
static void *tramp(void *p) {
    struct start s = *(struct start *)p;
    free(p);
    s.f(s.arg);
    return NULL;
}
uint64_t __sx_spawn(void (*f)(uintptr_t), uintptr_t arg) {
    struct start *s = malloc(sizeof *s);
    s->f = f;
    s->arg = arg;
    pthread_create(&th[nth], NULL, tramp, s);
    return nth++ + 1;
}
#include <sched.h>
void __sx_yield(void) { sched_yield(); }
void __sx_join(uint64_t t) { pthread_join(th[t - 1], NULL); }
