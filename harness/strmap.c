#include "h.h"
#include "embc/collections/strmap.h"
#include "embc/collections/hashmap.h"
static int str, hv; static struct embc_strmap_s * s; static struct embc_hashmap_s * h; static long live0;
/* key id -> string.  Variants: 0 short, 1 colliding in djb2 ("bA" = "ab"), 2 empty / long / prefixes of one another,
 * 5 and 6 colliding with long common parts, 3 high-bit characters, 4 many keys sharing a bucket */
static char * kstr(int k) {
    char b[600]; b[0] = 0;
    if (hv == 0) sprintf(b, "k%d", k);
    else if (hv == 1) { int x = k, n = 0; do { strcpy(b + n, (x & 1) ? "ab" : "bA"); n += 2; x >>= 1; } while (n < 16); }
    else if (hv == 2) { for (int i = 0; i < k - 1 && i < 500; ++i) b[i] = 'x', b[i + 1] = 0; }
    else if (hv >= 5) {   /* colliding, and alike but for the last (5) or first (6) few characters */
        static const int len[4] = {15, 31, 64, 255}; int x = k / 4, n = len[k % 4]; memset(b, 'x', n);
        char * q = b + (hv == 5 ? n : 0); if (hv == 6) memset(b + 14, 'x', n);
        for (int i = 0; i < 7; ++i, q += 2, x >>= 1) memcpy(q, (x & 1) ? "Ab" : "BA", 2);
        b[n + 14] = 0; }
    else if (hv == 3) sprintf(b, "\xff\x80%c%d", 0x80 + (k % 120), k);
    else { int n = sprintf(b, "%d-", k); b[n] = 0; unsigned long w = 5381; for (int i = 0; b[i]; ++i) w = w * 33 + b[i];
           for (int c = 'a'; c <= 'z' + 40; ++c) { unsigned long z = w * 33 + (c > 126 ? 126 : c); if ((z & 63) == 7 && c <= 126) { b[n] = c; b[n + 1] = 0; break; } } }
    char * r = malloc(strlen(b) + 1); strcpy(r, b); return r;
}
static int vmode;
static void * val(int v) { switch (vmode) { case 1: return (void *) ((uintptr_t) v << 32); case 2: return (void *) -(intptr_t) v; case 3: return (void *) ((uintptr_t) v << 56); default: return (void *) (intptr_t) v; } }
static int unval(void * p) { for (int v = 0; v < 128; ++v) if (val(v) == p) return v; return -7; }
struct obj { int id; int junk; };
static embc_size_t ohash(void * p) { int i = ((struct obj *) p)->id; switch (hv) { case 0: return i; case 1: return 5; case 2: return (embc_size_t) i << 40; case 3: return -i; default: return i * 8; } }
static bool oeq(void * a, void * b) { return ((struct obj *) a)->id == ((struct obj *) b)->id; }
static struct obj store[80000];   /* keys handed to the map must stay valid */
void h_cmd(const char * op) {
    void * old = (void *) 0x7777;
    if (!strcmp(op, "reset")) {
        str = !strcmp(h_args(1), "str"); hv = h_arg(2) % 10; vmode = h_arg(2) / 10; live0 = h_live;
        embc_strmap_free(0); embc_hashmap_free(0); if (embc_strmap_length(0) || embc_hashmap_length(0)) { ev("nil"); ev_end(); }
        if (str) s = embc_strmap_new(); else h = embc_hashmap_new(ohash, oeq);
        ev("reset"); ev_s("kind", str ? "str" : "hash"); ev_i("hv", hv); ev_i("len", str ? embc_strmap_length(s) : embc_hashmap_length(h)); ev_end();
        return;
    }
    if (!strcmp(op, "free")) {
        if (str) embc_strmap_free(s); else embc_hashmap_free(h);
        ev("free"); ev_i("leaked", h_live - live0); ev_end(); return;
    }
    /* many keys at once, one event */
    if (!strcmp(op, "bulk") || !strcmp(op, "bulkrm") || !strcmp(op, "sweep")) {
        int a = h_arg(1), b = h_arg(2), n = 0, bad = 0; long long * r = malloc((b - a + 1) * sizeof(*r));
        for (int k = a; k <= b; ++k) {
            char * key = kstr(k); struct obj probe = {k, 99}; old = (void *) 0x7777;
            if (op[0] == 's') { int rc = str ? embc_strmap_get(s, key, &old) : embc_hashmap_get(h, &probe, &old); r[k - a] = rc ? -1 : unval(old); }
            else if (op[4]) n += 0 == embc_strmap_remove(s, key, 0);
            else { store[k].id = k; bad += 0 != (str ? embc_strmap_put(s, key, val(k % 97 + 1), &old) : embc_hashmap_put(h, &store[k], val(k % 97 + 1), &old)); n += old != 0; }
            free(key);
        }
        ev(op); ev_i("a", a);
        if (op[0] == 's') ev_ai("v", r, b - a + 1); else { ev_i("b", b); ev_i("bad", bad); ev_i("n", n); }
        ev_i("len", str ? embc_strmap_length(s) : embc_hashmap_length(h)); ev_end(); free(r); return;
    }
    int k = h_arg(1); char * key = kstr(k); store[k].id = k;
    struct obj probe = {k, 99};
    if (!strcmp(op, "put")) {
        int v = h_arg(2), ask = h_arg(3);
        int rc = str ? embc_strmap_put(s, key, val(v), ask ? &old : 0) : embc_hashmap_put(h, &store[k], val(v), ask ? &old : 0);
        ev("put"); ev_i("k", k); ev_i("v", v); ev_b("ask", ask); ev_b("ok", rc == 0); ev_i("old", ask ? unval(old) : 0);
    } else if (!strcmp(op, "get")) {
        int rc = str ? embc_strmap_get(s, key, &old) : embc_hashmap_get(h, &probe, &old);
        if (rc != (str ? embc_strmap_get(s, key, 0) : embc_hashmap_get(h, &probe, 0))) { ev("differs"); ev_end(); }     /* asking only whether it is there */
        ev("get"); ev_i("k", k); ev_b("ok", rc == 0); ev_i("v", rc ? 0 : unval(old));
    } else if (!strcmp(op, "remove")) {
        int ask = h_arg(2);
        int rc = embc_strmap_remove(s, key, ask ? &old : 0);
        ev("remove"); ev_i("k", k); ev_b("ask", ask); ev_b("ok", rc == 0); ev_i("old", (rc || !ask) ? 0 : unval(old));
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
    ev_i("len", str ? embc_strmap_length(s) : embc_hashmap_length(h)); ev_end();
    free(key);     /* the string map must have made its own copy */
}
