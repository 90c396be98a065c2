#include "h.h"
#include "embc/memory/buffer.h"
#define NH 4096
static struct embc_buffer_allocator_s * a; static int inst_, room_, fresh_;
static struct embc_buffer_s * ptr[NH]; static int cap[NH];
static int pat(int h) { return (h * 37 + 11) & 0xff; }
/* what an owner does with a buffer; must not leak into its next life.  Each field is used by some owners and not by others */
static int u_cursor(int h) { return (h % 3 == 0 || h % 7 == 0) ? 1 + (h & 15) : 0; }
static int u_length(int h) { return h % 3 != 2 || h % 7 == 0 ? 16 + (h & 15) : 0; }
static int u_reserve(int h) { return (h % 5) < 3 ? 3 + (h & 7) : 0; }
static int u_id(int h) { return h % 4 ? h : 0; }
static int u_flags(int h) { return h % 11 < 5 ? 0x1234 + h : 0; }
static int intact(void) { for (int h = 0; h < NH; ++h) if (ptr[h]) {
    if (ptr[h]->capacity != cap[h] || ptr[h]->cursor != u_cursor(h) || ptr[h]->length != u_length(h) || ptr[h]->reserve != u_reserve(h) || ptr[h]->buffer_id != u_id(h) || ptr[h]->flags != (uint16_t) u_flags(h)) return 0;
    for (int i = 0; i < cap[h]; ++i) if (ptr[h]->data[i] != pat(h)) return 0; } return 1; }
void h_cmd(const char * op) {
    if (!strcmp(op, "reset") || !strcmp(op, "again")) {     /* first argument: 1 the allocator makes its own memory */
        int again = op[0] == 'a', own = h_arg(1); embc_size_t sizes[32]; int n = h_argc - 2;
        long long tot = 0;
        for (int i = 0; i < n; ++i) { sizes[i] = h_arg(i + 2); tot += sizes[i] * ((32LL << i) + 256); }
        long long sz = embc_buffer_allocator_instance_size(sizes, n);
        if (sz <= 0 || sz > tot + 8192) { ev("badsize"); ev_i("inst", sz); ev_end(); exit(0); }
        if (again) {
            if (sz > room_) return;
            for (int h = 0; h < NH; ++h) if (ptr[h]) { embc_buffer_free(ptr[h]); ptr[h] = 0; }   /* all are returned first */
            embc_buffer_allocator_finalize(a);
            own = 0;
        } else {
            if (fresh_) embc_free(a); else free(a);
            fresh_ = own; room_ = sz; a = 0;
            if (!own) { a = malloc(sz); memset(a, 0x5a, sz); }
        }
        inst_ = sz;
        memset(ptr, 0, sizeof(ptr));
        if (own) a = embc_buffer_allocator_new(sizes, n); else embc_buffer_allocator_initialize(a, sizes, n);
        if (!a) { ev("null"); ev_end(); exit(0); }
        ev(op); ev_arr("cnt"); for (int i = 0; i < n; ++i) ev_arr_i(sizes[i]); ev_arr_end(); ev_i("inst", inst_); ev_end();
    } else if (!strcmp(op, "alloc")) {
        int h = h_arg(1), safe = h_arg(2), size = h_arg(3);
        struct embc_buffer_s * volatile b = 0; volatile int fatal = 0;
        h_fatal_expected = 1;
        if (!setjmp(h_fatal_jmp)) b = safe ? embc_buffer_alloc(a, size) : embc_buffer_alloc_unsafe(a, size); else fatal = 1;
        h_fatal_expected = 0;
        int ok = intact();
        uint8_t * base = (uint8_t *) a;
        int in = b && (uint8_t *) b >= base && (uint8_t *) (b + 1) <= base + inst_;
        in = in && b->data >= base && b->data + b->capacity <= base + inst_;
        ev("alloc"); ev_i("h", h); ev_b("safe", safe); ev_i("size", size);
        ev_i("off", fatal ? -2 : b ? (in ? b->data - base : -3) : -1);
        ev_i("hoff", in ? (uint8_t *) b - base : 0); ev_i("hsz", in ? (int) sizeof(*b) : 0); ev_i("cap", in ? embc_buffer_capacity(b) : 0);
        ev_arr("meta"); ev_arr_i(in ? b->cursor : 0); ev_arr_i(in ? b->length : 0); ev_arr_i(in ? b->reserve : 0); ev_arr_i(in ? b->buffer_id : 0); ev_arr_i(in ? b->flags : 0); ev_arr_end();
        ev_b("intact", ok); ev_end();
        if (b && !in) exit(0);
        if (b) {
            ptr[h] = b; cap[h] = b->capacity; memset(b->data, pat(h), cap[h]);
            b->cursor = u_cursor(h); b->length = u_length(h); b->reserve = u_reserve(h); b->buffer_id = u_id(h); b->flags = u_flags(h);
        }
    } else if (!strcmp(op, "free")) {
        int h = h_arg(1);
        if (!ptr[h]) return;
        int ok = intact();
        embc_buffer_free(ptr[h]); ptr[h] = 0;
        ok = ok && intact();
        ev("free"); ev_i("h", h); ev_b("intact", ok); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
