#include "h.h"
#include "embc/memory/pool.h"
#define NH 4096
static struct embc_pool_s * pool;
static uint8_t * base; static int n_, size_, inst_, room_;
static uint8_t * ptr[NH];
static void fill(int h) { memset(ptr[h], (h * 37 + 11) & 0xff, size_); }
static int intact(void) {
    for (int h = 0; h < NH; ++h) if (ptr[h]) for (int i = 0; i < size_; ++i) if (ptr[h][i] != ((h * 37 + 11) & 0xff)) return 0;
    return 1;
}
static int by_value(const void * a, const void * b) { long long d = *(const long long *) a - *(const long long *) b; return d < 0 ? -1 : d > 0; }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {
        n_ = h_arg(1); size_ = h_arg(2);
        inst_ = embc_pool_instance_size(n_, size_);
        free(base);
        if (inst_ < n_ * size_ || inst_ > n_ * (size_ + 256) + 4096) { ev("badsize"); ev_i("inst", inst_); ev_end(); exit(0); }
        base = malloc(inst_);           /* exactly inst_ bytes: ASAN guards the ends */
        memset(base, 0x5a, inst_);
        memset(ptr, 0, sizeof(ptr));
        room_ = inst_;
        pool = (struct embc_pool_s *) base;
        int rc = embc_pool_initialize(pool, n_, size_);
        ev("reset"); ev_i("n", n_); ev_i("size", size_); ev_i("inst", inst_); ev_i("ret", rc); ev_end();
    } else if (!strcmp(op, "alloc")) {
        int h = h_arg(1), safe = h_arg(2);
        uint8_t * volatile b = 0; volatile int fatal = 0;
        h_fatal_expected = 1;
        if (!setjmp(h_fatal_jmp)) b = safe ? embc_pool_alloc(pool) : embc_pool_alloc_unsafe(pool); else fatal = 1;
        h_fatal_expected = 0;
        int ok = intact();
        if (b) { ptr[h] = b; if (b >= base && b + size_ <= base + inst_) fill(h); }
        ev("alloc"); ev_i("h", h); ev_b("safe", safe);
        ev_i("off", fatal ? -2 : b ? (b - base) : -1);
        ev_i("align", b ? ((uintptr_t) b % sizeof(int *)) : 0); ev_b("intact", ok); ev_end();
        if (b && !(b >= base && b + size_ <= base + inst_)) exit(0);
    } else if (!strcmp(op, "free")) {
        int h = h_arg(1);
        int ok = intact();
        embc_pool_free(pool, ptr[h]); ptr[h] = 0;
        ok = ok && intact();
        ev("free"); ev_i("h", h); ev_b("intact", ok); ev_end();
    } else if (!strcmp(op, "again")) {      /* done with this pool: its memory becomes another one */
        int n = h_arg(1), size = h_arg(2), need = embc_pool_instance_size(n, size);
        if (need < n * size || need > n * (size + 256) + 4096) { ev("badsize"); ev_i("inst", need); ev_end(); exit(0); }
        if (need > room_) return;
        embc_pool_finalize(pool);
        n_ = n; size_ = size; inst_ = need; memset(ptr, 0, sizeof(ptr));
        int rc = embc_pool_initialize(pool, n_, size_);
        ev("again"); ev_i("n", n_); ev_i("size", size_); ev_i("inst", inst_); ev_i("ret", rc); ev_end();
    } else if (!strcmp(op, "drain")) {      /* take every block there is, and give them all back in the order taken, or the other way */
        int rev = h_arg(1), cap = n_ + 2, n = 0; uint8_t ** b = malloc(cap * sizeof(*b)); long long * off = malloc(cap * sizeof(*off));
        int ok = intact(), in = 1;
        while (n < cap && (b[n] = embc_pool_alloc_unsafe(pool))) {
            if (!(b[n] >= base && b[n] + size_ <= base + inst_)) in = 0;
            off[n] = b[n] - base; if (in) memset(b[n], n % 251, size_);
            ++n;
        }
        if (in) for (int i = 0; i < n; ++i) for (int j = 0; j < size_; ++j) if (b[i][j] != i % 251) ok = 0;
        ok = ok && intact();
        for (int i = 0; in && i < n; ++i) embc_pool_free(pool, b[rev ? n - 1 - i : i]);
        qsort(off, n, sizeof(*off), by_value);
        ev("drain"); ev_b("rev", rev); ev_ai("off", off, n); ev_b("intact", ok); ev_end(); free(b); free(off);
        if (!in) exit(0);
    } else if (!strcmp(op, "is_empty")) {
        int r = embc_pool_is_empty(pool);
        ev("is_empty"); ev_i("ret", r); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
