#include "h.h"
#include "embc/memory/object_pool.h"
#define NH 4096
static struct embc_object_pool_s * pool[3];
static uint8_t * base[3]; static int n_[3], size_[3], inst_[3], room_[3];
static uint8_t * ptr[NH]; static int own[NH], isdead[NH];
static int has_ctor, has_dtor;
static int ctors, dtors, dtor_ok; static void * ctor_obj, * dtor_obj;
static int pat(int h) { return (h * 37 + 11) & 0xff; }
static int is_pat(int h) { for (int i = 0; i < size_[own[h]]; ++i) if (ptr[h][i] != pat(h)) return 0; return 1; }
static int intact(void) { for (int h = 0; h < NH; ++h) if (ptr[h] && !isdead[h] && !is_pat(h)) return 0; return 1; }
static void ctor(void * o) { ++ctors; ctor_obj = o; *(uint8_t *) o = 0xC7; }
static int nest_q; static uint8_t * nest_b; static int nest_ok;   /* pool the destructor allocates from */
static void dtor(void * o) {
    ++dtors; dtor_obj = o;
    for (int h = 0; h < NH; ++h) if (ptr[h] == o && !isdead[h]) dtor_ok = is_pat(h);
    *(uint8_t *) o = 0xD7;
    if (nest_q) {
        int q = nest_q; nest_q = 0; nest_b = embc_object_pool_alloc(pool[q]);
        nest_ok = nest_b != o;
        if (has_ctor) { if (ctor_obj != nest_b || nest_b[0] != 0xC7) nest_ok = 0; }
        else for (int i = 0; i < size_[q]; ++i) if (nest_b[i]) nest_ok = 0;
    }
}
void h_cmd(const char * op) {
    if (!strcmp(op, "reset")) {
        has_ctor = h_arg(5); has_dtor = h_arg(6);
        memset(ptr, 0, sizeof(ptr)); memset(isdead, 0, sizeof(isdead));
        int rc = 0;
        for (int q = 1; q <= 2; ++q) {
            n_[q] = h_arg(q); size_[q] = h_arg(q + 2);
            inst_[q] = embc_object_pool_instance_size(n_[q], size_[q]);
            if (inst_[q] < n_[q] * size_[q] || inst_[q] > n_[q] * (size_[q] + 256) + 4096) { ev("badsize"); ev_i("inst", inst_[q]); ev_end(); exit(0); }
            free(base[q]); base[q] = malloc(inst_[q]); memset(base[q], 0x5a, inst_[q]);
            room_[q] = inst_[q];
            pool[q] = (struct embc_object_pool_s *) base[q];
            rc |= embc_object_pool_initialize(pool[q], n_[q], size_[q], has_ctor ? ctor : 0, has_dtor ? dtor : 0);
        }
        ev("reset"); ev_i("n1", n_[1]); ev_i("n2", n_[2]); ev_i("size1", size_[1]); ev_i("size2", size_[2]);
        ev_i("inst1", inst_[1]); ev_i("inst2", inst_[2]); ev_b("ctor", has_ctor); ev_b("dtor", has_dtor); ev_i("ret", rc); ev_end();
    } else if (!strcmp(op, "again")) {      /* the memory of pool q becomes another pool */
        int q = h_arg(1), n = h_arg(2), size = h_arg(3), need = embc_object_pool_instance_size(n, size);
        if (need < n * size || need > n * (size + 256) + 4096) { ev("badsize"); ev_i("inst", need); ev_end(); exit(0); }
        if (need > room_[q]) return;
        ctors = dtors = 0;
        embc_object_pool_finalize(pool[q]);
        n_[q] = n; size_[q] = size; inst_[q] = need;
        for (int h = 0; h < NH; ++h) if (ptr[h] && own[h] == q) { ptr[h] = 0; isdead[h] = 0; }
        int rc = embc_object_pool_initialize(pool[q], n, size, has_ctor ? ctor : 0, has_dtor ? dtor : 0);
        ev("again"); ev_i("q", q); ev_i("n", n); ev_i("size", size); ev_i("inst", need); ev_i("ctors", ctors); ev_i("dtors", dtors);
        ev_b("intact", intact()); ev_i("ret", rc); ev_end();
    } else if (!strcmp(op, "alloc")) {
        int h = h_arg(1), q = h_arg(2);
        uint8_t * volatile b = 0; volatile int fatal = 0;
        ctors = dtors = 0; ctor_obj = 0;
        h_fatal_expected = 1;
        if (!setjmp(h_fatal_jmp)) b = embc_object_pool_alloc(pool[q]); else fatal = 1;
        h_fatal_expected = 0;
        int ok = intact(); int zero = 1;
        int in = b && b >= base[q] && b + size_[q] <= base[q] + inst_[q];
        if (in) {
            if (has_ctor) { if (ctor_obj != b || b[0] != 0xC7) ctors = -1; }
            else for (int i = 0; i < size_[q]; ++i) if (b[i]) zero = 0;
            /* older handles of the same memory are gone */
            for (int g = 0; g < NH; ++g) if (ptr[g] && isdead[g] && ptr[g] == b) { ptr[g] = 0; isdead[g] = 0; }
            ptr[h] = b; own[h] = q; isdead[h] = 0; memset(b, pat(h), size_[q]);
        }
        ev("alloc"); ev_i("h", h); ev_i("q", q); ev_i("off", fatal ? -2 : b ? (in ? b - base[q] : -3) : -1);
        ev_i("ctors", ctors); ev_i("dtors", dtors); ev_b("zero", zero); ev_b("intact", ok); ev_end();
        if (b && !in) exit(0);
    } else if (!strcmp(op, "incr")) {
        int h = h_arg(1); int n = h_arg(2); volatile int fatal = 0;
        h_fatal_expected = 1;
        if (!setjmp(h_fatal_jmp)) for (volatile int i = 0; i < n; ++i) embc_object_pool_incr(ptr[h]); else fatal = 1;
        h_fatal_expected = 0;
        ev("incr"); ev_i("h", h); ev_i("n", n); ev_b("fatal", fatal); ev_end();
    } else if (!strcmp(op, "decr")) {
        int h = h_arg(1); int n = h_arg(2);
        ctors = dtors = 0; dtor_obj = 0; dtor_ok = 1;
        int early = 0; int r = 0;
        for (int i = 0; i < n; ++i) { r = embc_object_pool_decr(ptr[h]); if (i < n - 1 && (r || dtors)) ++early; }
        if (dtors && dtor_obj != ptr[h]) dtors = -1;
        if (r) isdead[h] = 1;
        int ok = intact() && dtor_ok;
        ev("decr"); ev_i("h", h); ev_i("n", n); ev_b("ret", r); ev_i("early", early); ev_i("ctors", ctors); ev_i("dtors", dtors); ev_b("intact", ok); ev_end();
    } else if (!strcmp(op, "decrn")) {          /* the last reference goes, and the destructor takes another object */
        int h = h_arg(1), g = h_arg(2), q = own[h];
        ctors = dtors = 0; dtor_obj = 0; ctor_obj = 0; dtor_ok = 1; nest_q = q; nest_b = 0; nest_ok = 1;
        int r = embc_object_pool_decr(ptr[h]); nest_q = 0;
        if (dtors && dtor_obj != ptr[h]) dtors = -1;
        if (r) isdead[h] = 1;
        int in = nest_b && nest_b >= base[q] && nest_b + size_[q] <= base[q] + inst_[q];
        int ok = intact() && dtor_ok && nest_ok;
        if (in) {
            for (int k = 0; k < NH; ++k) if (ptr[k] && isdead[k] && ptr[k] == nest_b) { ptr[k] = 0; isdead[k] = 0; }
            ptr[g] = nest_b; own[g] = q; isdead[g] = 0; memset(nest_b, pat(g), size_[q]);
        }
        ev("decrn"); ev_i("h", h); ev_i("g", g); ev_b("ret", r); ev_i("off", in ? nest_b - base[q] : -3);
        ev_i("ctors", ctors); ev_i("dtors", dtors); ev_b("intact", ok); ev_end();
        if (!in) exit(0);
    } else if (!strcmp(op, "dead")) {
        int h = h_arg(1); volatile int fatal = 0;
        if (!ptr[h] || !isdead[h]) return;      /* its memory was handed out again: nothing to observe */
        h_fatal_expected = 1;
        if (!setjmp(h_fatal_jmp)) { if (!strcmp(h_args(2), "incr")) embc_object_pool_incr(ptr[h]); else embc_object_pool_decr(ptr[h]); } else fatal = 1;
        h_fatal_expected = 0;
        ev("dead"); ev_i("h", h); ev_s("which", h_args(2)); ev_b("fatal", fatal); ev_end();
        if (!fatal) exit(0);
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
