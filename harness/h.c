#include "h.h"
#include "embc/platform.h"
#include "embc/assert.h"

FILE * h_out;
static int need_comma;
static int open_ev;
int h_fatal_expected;
jmp_buf h_fatal_jmp;
int h_fatal_count;

static void comma(void) { if (need_comma) fputc(',', h_out); need_comma = 1; }
static void jstr(const char * s) {
    fputc('"', h_out);
    for (; *s; ++s) {
        unsigned char c = (unsigned char) *s;
        if (c == '"' || c == '\\') { fputc('\\', h_out); fputc(c, h_out); }
        else if (c < 0x20 || c >= 0x7f) { fprintf(h_out, "\\u%04x", c); }
        else fputc(c, h_out);
    }
    fputc('"', h_out);
}
void ev(const char * op) {
    fputs("{\"op\":", h_out); jstr(op); need_comma = 1; open_ev = 1;
}
void ev_i(const char * k, long long v) {
    comma(); jstr(k);
    /* TLC integers are 32-bit: anything wider is a harness error or a wild value */
    if (v > 2147483647LL) v = 2147483647LL;
    if (v < -2147483647LL) v = -2147483647LL;
    fprintf(h_out, ":%lld", v);
}
void ev_b(const char * k, int v) { comma(); jstr(k); fputs(v ? ":true" : ":false", h_out); }
void ev_s(const char * k, const char * s) { comma(); jstr(k); fputc(':', h_out); jstr(s); }
void ev_raw(const char * k, const char * json) { comma(); jstr(k); fputc(':', h_out); fputs(json, h_out); }
void ev_arr(const char * k) { comma(); jstr(k); fputs(":[", h_out); need_comma = 0; }
void ev_arr_i(long long v) { comma(); fprintf(h_out, "%lld", v); }
void ev_arr_raw(const char * j) { comma(); fputs(j, h_out); }
void ev_arr_end(void) { fputc(']', h_out); need_comma = 1; }
void ev_ai(const char * k, const long long * v, int n) {
    ev_arr(k); for (int i = 0; i < n; ++i) ev_arr_i(v[i]); ev_arr_end();
}
void ev_bytes(const char * k, const uint8_t * v, int n) {
    ev_arr(k); for (int i = 0; i < n; ++i) ev_arr_i(v[i]); ev_arr_end();
}
void ev_end(void) { fputs("}\n", h_out); fflush(h_out); open_ev = 0; }

/* The library calls this on every assertion failure. */
__attribute__((weak)) void embc_fatal(char const * file, int line, char const * msg) {
    ++h_fatal_count;
    if (h_fatal_expected) {
        longjmp(h_fatal_jmp, 1);
    }
    if (open_ev) { fputs("}\n", h_out); open_ev = 0; }
    const char * b = strrchr(file, '/');
    fprintf(stderr, "FATAL %s:%d %s\n", b ? b + 1 : file, line, msg ? msg : "");
    fputs("{\"op\":\"fatal\",\"msg\":", h_out); jstr(msg ? msg : ""); fputs("}\n", h_out);
    fflush(h_out);
    _exit(0);
}

long h_live;
static void * alloc_(embc_size_t sz) {
    if (sz < 0 || sz > (1 << 26)) return 0;
    ++h_live;
    void * p = malloc((size_t) sz);
    memset(p, 0xA5, (size_t) sz);
    return p;
}
static void free_(void * p) { --h_live; free(p); }
void h_alloc_init(void) { embc_allocator_set(alloc_, free_); h_live = 0; }

int h_argc;
char * h_argv[8192];
long long h_arg(int i) { if (i >= h_argc) { fprintf(stderr, "script: missing arg %d of %s\n", i, h_argv[0]); exit(97); } return strtoll(h_argv[i], 0, 0); }
const char * h_args(int i) { if (i >= h_argc) { fprintf(stderr, "script: missing arg %d of %s\n", i, h_argv[0]); exit(97); } return h_argv[i]; }

int main(int argc, char ** argv) {
    FILE * in = stdin;
    h_out = stdout;
    if (argc > 1) { in = fopen(argv[1], "r"); if (!in) { perror(argv[1]); return 98; } }
    if (argc > 2) { h_out = fopen(argv[2], "w"); if (!h_out) { perror(argv[2]); return 98; } }
    h_alloc_init();
    char * line = 0; size_t cap = 0;
    while (getline(&line, &cap, in) > 0) {
        h_argc = 0;
        char * save = 0;
        for (char * t = strtok_r(line, " \t\n", &save); t && h_argc < 8190; t = strtok_r(0, " \t\n", &save)) h_argv[h_argc++] = t;
        if (!h_argc || h_argv[0][0] == '#') continue;
        h_argv[h_argc] = 0;
        h_cmd(h_argv[0]);
    }
    ev("end"); ev_end();
    free(line);
    fclose(h_out);
    return 0;
}
