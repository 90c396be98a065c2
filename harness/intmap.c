#include "h.h"
#include "embc/collections/intmap.h"
/* typed wrapper as the header's macros generate it, counting its own allocations */
static long h_typed;
static void * t_calloc(size_t n, size_t s) { ++h_typed; return calloc(n, s); }
static void t_free(void * p) { --h_typed; free(p); }
#define calloc t_calloc
#define free t_free
EMBC_INTMAP_DECLARE(tmap, char *)
EMBC_INTMAP_DEFINE_STRUCT(tmap)
EMBC_INTMAP_DEFINE(tmap, char *)
#undef calloc
#undef free
static int typed;                 /* use the typed wrapper in this run */
static struct embc_intmap_s * m; static struct tmap_s * t;
static struct embc_intmap_iterator_s * it[16]; static struct tmap_iterator_s * tit[16];
static long long stride, base; static long live0, typed0;
/* stride 0: keys that differ from each other in one or two bits, anywhere */
static embc_size_t key(int k) { if (!stride) return (embc_size_t) base ^ (embc_size_t) (k <= 64 ? 1ull << (k - 1) : k == 65 ? 0 : k * 0x9E3779B97F4A7C15ull); return (embc_size_t) (base * 1000003LL * 4096LL) + (embc_size_t) k * (embc_size_t) stride; }
/* values are pointers of any kind: null, small, differing only in high bits, negative */
static int vmode;
static void * val(int v) { switch (vmode) { case 1: return (void *) ((uintptr_t) v << 32); case 2: return (void *) -(intptr_t) v; case 3: return (void *) ((uintptr_t) v << 56); default: return (void *) (intptr_t) v; } }
static int unval(void * p) { for (int v = 0; v < 128; ++v) if (val(v) == p) return v; return -7; }
static int unkey(embc_size_t x) { if (stride) { long long d = (long long) x - key(0); return d % stride == 0 && d / stride > 0 && d / stride < 1000000 ? d / stride : -9; } for (int k = 1; k < 4096; ++k) if (key(k) == x) return k; return -9; }
static long long len(void) { return typed ? tmap_length(t) : embc_intmap_length(m); }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {
        stride = h_arg(1); base = h_arg(2); typed = h_arg(3) & 1; vmode = h_arg(3) >> 1;
        memset(it, 0, sizeof(it)); memset(tit, 0, sizeof(tit));
        live0 = h_live; typed0 = h_typed;
        embc_intmap_free(0); if (embc_intmap_length(0)) { ev("nil"); ev_end(); }
        if (typed) t = tmap_new(); else m = embc_intmap_new();
        ev("reset"); ev_i("stride", stride); ev_i("base", base); ev_i("len", len()); ev_end();
    } else if (!strcmp(op, "put")) {
        int k = h_arg(1), v = h_arg(2), ask = h_arg(3);
        void * old = (void *) 0x7777; int rc;
        if (typed) rc = tmap_put(t, key(k), (char *) val(v), ask ? (char **) &old : 0);
        else rc = embc_intmap_put(m, key(k), val(v), ask ? &old : 0);
        ev("put"); ev_i("k", k); ev_i("v", v); ev_b("ask", ask); ev_i("rc", rc); ev_i("old", ask ? unval(old) : 0); ev_i("len", len()); ev_end();
    } else if (!strcmp(op, "get")) {
        int k = h_arg(1); void * v = (void *) 0x7777;
        int rc = typed ? tmap_get(t, key(k), (char **) &v) : embc_intmap_get(m, key(k), &v);
        if (rc != (typed ? tmap_get(t, key(k), 0) : embc_intmap_get(m, key(k), 0))) { ev("differs"); ev_end(); }
        ev("get"); ev_i("k", k); ev_i("rc", rc); ev_i("v", rc ? 0 : unval(v)); ev_i("len", len()); ev_end();
    } else if (!strcmp(op, "remove")) {
        int k = h_arg(1), ask = h_arg(2); void * old = (void *) 0x7777;
        int rc = typed ? tmap_remove(t, key(k), ask ? (char **) &old : 0) : embc_intmap_remove(m, key(k), ask ? &old : 0);
        ev("remove"); ev_i("k", k); ev_b("ask", ask); ev_i("rc", rc); ev_i("old", (rc || !ask) ? 0 : unval(old)); ev_i("len", len()); ev_end();
    } else if (!strcmp(op, "bulk")) {          /* bulk a b step : put many keys, one event */
        int a = h_arg(1), b = h_arg(2), st = h_arg(3), n = 0, bad = 0; void * old;
        for (int k = a; k <= b; k += st) { old = (void *) 0x7777; int v = k % 97 + 1;
            if (typed ? tmap_put(t, key(k), (char *) val(v), (char **) &old) : embc_intmap_put(m, key(k), val(v), &old)) ++bad; if (old) ++n; }
        ev("bulk"); ev_i("a", a); ev_i("b", b); ev_i("step", st); ev_i("bad", bad); ev_i("old", n); ev_i("len", len()); ev_end();
    } else if (!strcmp(op, "bulkrm")) {
        int a = h_arg(1), b = h_arg(2), st = h_arg(3), n = 0;
        for (int k = a; k <= b; k += st) if (!(typed ? tmap_remove(t, key(k), 0) : embc_intmap_remove(m, key(k), 0))) ++n;
        ev("bulkrm"); ev_i("a", a); ev_i("b", b); ev_i("step", st); ev_i("found", n); ev_i("len", len()); ev_end();
    } else if (!strcmp(op, "sweep")) {         /* look up every key from a to b */
        int a = h_arg(1), b = h_arg(2); long long * v = malloc((b - a + 1) * sizeof(*v));
        for (int k = a; k <= b; ++k) { void * x = 0; int rc = typed ? tmap_get(t, key(k), (char **) &x) : embc_intmap_get(m, key(k), &x); v[k - a] = rc ? -rc : unval(x); }
        ev("sweep"); ev_i("a", a); ev_ai("v", v, b - a + 1); ev_end(); free(v);
    } else if (!strcmp(op, "iter_keys")) {     /* to the end, one event */
        int i = h_arg(1), lim = h_arg(2), n = 0; long long * ks = malloc((lim + 1) * sizeof(*ks));
        while (n <= lim) { embc_size_t k = 0; void * v = 0; if (typed ? tmap_iterator_next(tit[i], &k, (char **) &v) : embc_intmap_iterator_next(it[i], &k, &v)) break; ks[n++] = unkey(k); }
        ev("iter_keys"); ev_i("i", i); ev_ai("ks", ks, n); ev_end(); free(ks);
    } else if (!strcmp(op, "iter_new")) {
        int i = h_arg(1); if (typed) tit[i] = tmap_iterator_new(t); else it[i] = embc_intmap_iterator_new(m);
        ev("iter_new"); ev_i("i", i); ev_end();
    } else if (!strcmp(op, "iter_next")) {
        int i = h_arg(1); embc_size_t k = 0; void * v = 0;
        int rc = typed ? tmap_iterator_next(tit[i], &k, (char **) &v) : embc_intmap_iterator_next(it[i], &k, &v);
        ev("iter_next"); ev_i("i", i); ev_i("rc", rc); ev_i("k", rc ? 0 : unkey(k)); ev_i("v", rc ? 0 : unval(v)); ev_end();
    } else if (!strcmp(op, "iter_all")) {      /* to the end, one event per step */
        int i = h_arg(1), lim = h_arg(2); char cmd[2][16]; sprintf(cmd[1], "%d", i);
        for (int n = 0; n < lim; ++n) {
            embc_size_t k = 0; void * v = 0;
            int rc = typed ? tmap_iterator_next(tit[i], &k, (char **) &v) : embc_intmap_iterator_next(it[i], &k, &v);
            ev("iter_next"); ev_i("i", i); ev_i("rc", rc); ev_i("k", rc ? 0 : unkey(k)); ev_i("v", rc ? 0 : unval(v)); ev_end();
            if (rc) break;
        }
    } else if (!strcmp(op, "iter_free")) {
        int i = h_arg(1); if (typed) tmap_iterator_free(tit[i]); else embc_intmap_iterator_free(it[i]); tit[i] = 0; it[i] = 0;
        ev("iter_free"); ev_i("i", i); ev_end();
    } else if (!strcmp(op, "free")) {
        if (typed) tmap_free(t); else embc_intmap_free(m);
        ev("free"); ev_i("leaked", (h_live - live0) + (h_typed - typed0)); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
