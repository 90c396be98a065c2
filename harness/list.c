#include "h.h"
#include "embc/collections/list.h"
#define NI 70000
struct entry { int pad; struct embc_list_s item; int id; };
static struct embc_list_s L[9]; static struct entry E[NI + 1]; static int nl, ni;
static int id(struct embc_list_s * it) { if (!it) return 0; struct entry * e = embc_list_entry(it, struct entry, item); long d = e - E; if (d < 1 || d > NI || &E[d] != e) return -9; return (int) d; }
static void walk(const char * key, int rev) {
    ev_arr(key);
    for (int k = 1; k <= nl; ++k) {
        static char j[NI * 8]; char * p = j; int c = 0; *p++ = '['; 
        for (struct embc_list_s * it = rev ? L[k].prev : L[k].next; it != &L[k] && c < NI + 2; it = rev ? it->prev : it->next) {
            int d = id(it); p += sprintf(p, "%s%d", c++ ? "," : "", d); if (d < 0) break; }
        *p++ = ']'; *p = 0; ev_arr_raw(j);
    }
    ev_arr_end();
}
static void done(void) { walk("fw", 0); walk("rv", 1); ev_end(); }
static struct embc_list_s * I(int i) { return &E[i].item; }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {
        nl = h_arg(1); ni = h_arg(2);
        for (int k = 1; k <= nl; ++k) embc_list_initialize(&L[k]);
        for (int i = 1; i <= ni; ++i) { E[i].id = i; embc_list_initialize(&E[i].item); }
        ev("reset"); ev_i("ni", ni);
    } else if (!strcmp(op, "add_head") || !strcmp(op, "add_tail")) {
        int k = h_arg(1), i = h_arg(2);
        if (op[4] == 'h') embc_list_add_head(&L[k], I(i)); else embc_list_add_tail(&L[k], I(i));
        ev(op); ev_i("k", k); ev_i("i", i);
    } else if (!strcmp(op, "fill")) {
        int k = h_arg(1), a = h_arg(2), b = h_arg(3);
        for (int i = a; i <= b; ++i) embc_list_add_tail(&L[k], I(i));
        ev(op); ev_i("k", k); ev_i("a", a); ev_i("b", b);
    } else if (!strcmp(op, "remove_head") || !strcmp(op, "remove_tail")) {
        int k = h_arg(1);
        struct embc_list_s * r = (op[7] == 'h') ? embc_list_remove_head(&L[k]) : embc_list_remove_tail(&L[k]);
        ev(op); ev_i("k", k); ev_i("ret", id(r));
    } else if (!strcmp(op, "remove")) {
        int i = h_arg(1); embc_list_remove(I(i)); ev(op); ev_i("i", i);
    } else if (!strcmp(op, "insert_before") || !strcmp(op, "insert_after")) {
        int p = h_arg(1), i = h_arg(2);
        if (op[7] == 'b') embc_list_insert_before(I(p), I(i)); else embc_list_insert_after(I(p), I(i));
        ev(op); ev_i("p", p); ev_i("i", i);
    } else if (!strcmp(op, "append")) {
        int k = h_arg(1), s = h_arg(2); embc_list_append(&L[k], &L[s]); ev(op); ev_i("k", k); ev_i("s", s);
    } else if (!strcmp(op, "query")) {
        int k = h_arg(1), i = h_arg(2), x = h_arg(3);
        ev(op); ev_i("k", k); ev_i("i", i); ev_i("x", x); ev_i("len", embc_list_length(&L[k])); ev_b("empty", embc_list_is_empty(&L[k]));
        ev_i("head", id(embc_list_peek_head(&L[k]))); ev_i("tail", id(embc_list_peek_tail(&L[k])));
        ev_b("contains", embc_list_contains(&L[k], I(i))); ev_i("index_of", embc_list_index_of(&L[k], I(i))); ev_i("at", id(embc_list_index(&L[k], x)));
    } else if (!strcmp(op, "iterate")) {
        int k = h_arg(1), rev = h_arg(2), safe = h_arg(3); static int rm[NI + 1]; static long long v[NI + 2]; int n = 0; memset(rm, 0, sizeof(rm));
        struct embc_list_s * it;
        for (int a = 4; a < h_argc; ++a) rm[h_arg(a)] = 1;
#define BODY { int d = id(it); if (n < NI) v[n++] = d; else break; if (d < 0) break; if (rm[d]) embc_list_remove(it); }
        if (safe && !rev) { embc_list_foreach(&L[k], it) BODY }
        else if (safe) { embc_list_foreach_reverse(&L[k], it) BODY }
        else if (!rev) { embc_list_foreach_unsafe(&L[k], it) BODY }
        else { embc_list_foreach_reverse_unsafe(&L[k], it) BODY }
        ev(op); ev_i("k", k); ev_b("rev", rev); ev_b("safe", safe); ev_arr("rm"); for (int a = 4; a < h_argc; ++a) ev_arr_i(h_arg(a)); ev_arr_end(); ev_ai("visit", v, n);
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
    done();
}
