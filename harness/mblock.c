#include "h.h"
#include "embc/memory/block.h"
#define NH 4096
static struct embc_mblock_s * mb; static void * inst; static uint8_t * mem; static int mem_, bs_, mroom_, iroom_;
static uint8_t * ptr[NH]; static int sz[NH];
static int pat(int h) { return (h * 37 + 11) & 0xff; }
static int intact(void) { for (int h = 0; h < NH; ++h) if (ptr[h]) for (int i = 0; i < sz[h]; ++i) if (ptr[h][i] != pat(h)) return 0; return 1; }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {
        mem_ = h_arg(1); bs_ = h_arg(2);
        int n = embc_mblock_instance_size(mem_, bs_);
        if (n <= 0 || n > 4096 + mem_) { ev("badsize"); ev_i("inst", n); ev_end(); exit(0); }
        free(inst); free(mem); inst = malloc(n); memset(inst, 0x5a, n); mem = malloc(mem_); memset(mem, 0x5a, mem_);
        memset(ptr, 0, sizeof(ptr));
        mb = inst; mroom_ = mem_; iroom_ = n;
        int rc = embc_mblock_initialize(mb, mem, mem_, bs_);
        ev("reset"); ev_i("mem", mem_); ev_i("bs", bs_); ev_i("ret", rc); ev_end();
    } else if (!strcmp(op, "again")) {      /* the same memory under new management */
        int m = h_arg(1), bs = h_arg(2), n = embc_mblock_instance_size(m, bs);
        if (n <= 0 || n > 4096 + m) { ev("badsize"); ev_i("inst", n); ev_end(); exit(0); }
        if (m > mroom_ || n > iroom_) return;
        embc_mblock_finalize(mb);
        mem_ = m; bs_ = bs; memset(ptr, 0, sizeof(ptr));
        int rc = embc_mblock_initialize(mb, mem, mem_, bs_);
        ev("again"); ev_i("mem", mem_); ev_i("bs", bs_); ev_i("ret", rc); ev_end();
    } else if (!strcmp(op, "alloc")) {
        int h = h_arg(1), safe = h_arg(2), size = h_arg(3);
        uint8_t * volatile b = 0; volatile int fatal = 0;
        h_fatal_expected = 1;
        if (!setjmp(h_fatal_jmp)) b = safe ? embc_mblock_alloc(mb, size) : embc_mblock_alloc_unsafe(mb, size); else fatal = 1;
        h_fatal_expected = 0;
        int ok = intact();
        int in = b && b >= mem && b + size <= mem + mem_;
        if (in) { ptr[h] = b; sz[h] = size; memset(b, pat(h), size); }
        ev("alloc"); ev_i("h", h); ev_b("safe", safe); ev_i("size", size); ev_i("off", fatal ? -2 : b ? (in ? b - mem : -3) : -1); ev_b("intact", ok); ev_end();
        if (b && !in) exit(0);
    } else if (!strcmp(op, "free")) {
        int h = h_arg(1);
        if (!ptr[h]) return;   /* the script's allocation was refused */
        int ok = intact();
        embc_mblock_free(mb, ptr[h], sz[h]); ptr[h] = 0;
        ok = ok && intact();
        ev("free"); ev_i("h", h); ev_b("intact", ok); ev_end();
    } else if (!strcmp(op, "misuse")) {
        const char * kind = h_args(1); int off = h_arg(2), size = h_arg(3); volatile int fatal = 0;
        if (!strcmp(kind, "notalloc")) for (int h = 0; h < NH; ++h)
            if (ptr[h] && off / bs_ >= (ptr[h] - mem) / bs_ && off / bs_ < (ptr[h] - mem) / bs_ + (sz[h] + bs_ - 1) / bs_) return;
        h_fatal_expected = 1;
        if (!setjmp(h_fatal_jmp)) {
            if (!strcmp(kind, "size")) embc_mblock_alloc_unsafe(mb, size); else embc_mblock_free(mb, mem + off, size);
        } else fatal = 1;
        h_fatal_expected = 0;
        ev("misuse"); ev_s("kind", kind); ev_i("off", off); ev_i("size", size); ev_b("fatal", fatal); ev_b("intact", intact()); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
