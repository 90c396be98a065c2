#include "h.h"
#include "embc/event_manager.h"
#include "embc/time.h"
/* calloc/malloc/free of the library objects are counted through the linker's --wrap */
static volatile long live; static volatile int counting;
void * __real_calloc(size_t, size_t); void * __real_malloc(size_t); void __real_free(void *);
void * __wrap_calloc(size_t a, size_t b) { void * p = __real_calloc(a, b); if (counting && p) ++live; return p; }
void * __wrap_malloc(size_t a) { void * p = __real_malloc(a); if (counting && p) ++live; return p; }
void __wrap_free(void * p) { if (counting && p) --live; __real_free(p); }
static struct embc_evm_s * m; static int64_t base; static int rb, sh;   /* time = base + script time * 2^sh */
/* script times 2000000000.. and -2000000000.. stand for the far ends of the range */
#define FAR (INT64_MAX - ((int64_t) 1 << 42))
static int64_t TM(long long x) { return x == 2000000000 ? FAR : x == 2000000001 ? INT64_MAX : x == -2000000000 ? INT64_MIN : x == -2000000001 ? INT64_MIN + 1 : base + ((int64_t) x * ((int64_t) 1 << sh)); }
static int64_t un(int64_t d) { return d % ((int64_t) 1 << sh) ? -77 : d / ((int64_t) 1 << sh); }
#define NT 4096
static int32_t ids[NT];
static char * tok[8192]; static int ntok;       /* callback behaviours of the running process command */
static int cur_list, depth; static long long * bulk; static long nbulk;
static struct cbarg { int tag; } args[NT];
static void run(char ** t, int n);
static void cbk(void * u, int32_t id) {
    struct cbarg * a = (struct cbarg *) u;
    ev("fire"); ev_i("id", id); ev_i("tag", a->tag); ev_end();
    /* the k-th callback of this command executes the k-th '/'-separated list */
    int k = ++cur_list, s = 0, e;
    if (k > 3000) { ev("runaway"); ev_end(); exit(0); }
    for (int seen = 0; s < ntok; ++s) if (tok[s][0] == '/' && ++seen == k) break;
    if (s < ntok) { for (e = s + 1; e < ntok && tok[e][0] != '/'; ++e); run(tok + s + 1, e - s - 1); }
    ev("cb_end"); ev_end();
}
static void process(long long now) {
    ev("process"); ev_i("now", now); ev_end();
    int32_t r = embc_evm_process(m, TM(now));
    ev("processed"); ev_i("count", r); ev_end();
}
static void run(char ** t, int n) {
    for (int i = 0; i < n; ) {
        if (t[i][0] == 's') { int tag = atoi(t[i + 1]); long long ts = atoll(t[i + 2]); i += 3; args[tag].tag = tag;
            int32_t id = embc_evm_schedule(m, TM(ts), cbk, &args[tag]); ids[tag] = id;
            ev("schedule"); ev_i("tag", tag); ev_i("ts", ts); ev_i("id", id); ev_end();
        } else if (t[i][0] == 'c') { int32_t id = ids[atoi(t[i + 1])]; i += 2;
            int32_t r = embc_evm_cancel(m, id); ev("cancel"); ev_i("id", id); ev_i("rc", r); ev_end();
        } else if (t[i][0] == 'B') {    /* B n: n events at the times n, n - 1 .. 1 */
            nbulk = atol(t[i + 1]); i += 2; free(bulk); counting = 0; bulk = malloc(sizeof(*bulk) * nbulk); counting = 1; args[0].tag = 0;
            for (long k = 0; k < nbulk; ++k) bulk[k] = embc_evm_schedule(m, TM(nbulk - k), cbk, &args[0]);
            counting = 0; ev("bulk"); ev_ai("ids", bulk, nbulk); ev_end(); counting = 1;
        } else if (t[i][0] == 'b') { int32_t id = bulk[atol(t[i + 1])]; i += 2;
            int32_t r = embc_evm_cancel(m, id); ev("cancel"); ev_i("id", id); ev_i("rc", r); ev_end();
        } else if (t[i][0] == 'q') { long long q = atoll(t[i + 1]); i += 2;
            int64_t nx = embc_evm_time_next(m), iv = embc_evm_interval_next(m, TM(q));
            ev("query"); ev_i("t", q); ev_i("next", nx == EMBC_TIME_MIN ? -2000000000 : nx == FAR ? 2000000000 : un(nx - base)); ev_i("interval", nx == FAR && iv == FAR - TM(q) ? 2000000000 - q : iv < 0 ? iv : un(iv)); ev_end();
        } else if (t[i][0] == 'p') { long long q = atoll(t[i + 1]); i += 2; if (depth < 3) { ++depth; process(q); --depth; }
        } else { fprintf(stderr, "bad sub-op %s\n", t[i]); exit(97); }
    }
}
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {
        counting = 0; if (m) embc_evm_free(m);
        rb = h_arg(1); sh = h_arg(2); base = rb ? ((int64_t) 1 << (rb + 29)) : 0; memset(ids, 0, sizeof(ids));
        live = 0; counting = 1; m = embc_evm_allocate(); counting = 0; ev("reset"); ev_i("base", rb); ev_end();
    } else if (!strcmp(op, "proc")) {
        ntok = 0; cur_list = 0; depth = 0;
        for (int i = 2; i < h_argc; ++i) tok[ntok++] = h_argv[i];
        counting = 1; process(h_arg(1)); counting = 0; ntok = 0;
    } else if (!strcmp(op, "free")) {
        counting = 1; embc_evm_free(m); m = 0; counting = 0; ev("free"); ev_i("leaked", live); ev_end();
    } else { ntok = 0; cur_list = 0; counting = 1; run(h_argv, h_argc); counting = 0; }
}
