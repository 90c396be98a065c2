#define _GNU_SOURCE
#include "h.h"
#include <stdarg.h>
static int level_local = 6, level_global = 10;
#undef __FILENAME__
#define __FILENAME__ "d.c"
#define EMBC_LOG_LEVEL level_local
#define EMBC_LOG_GLOBAL_LEVEL level_global
#include "embc/log.h"
#include "embc/assert.h"
#include "embc/dbc.h"
#include "embc/argchk.h"
#include "embc/cdef.h"
#include "embc/ec.h"
#include "embc/lib.h"
/* --- handlers 1 and 2 of each kind; every call is recorded in order */
static char * calls; static size_t calls_len; static FILE * cf; static int ncalls;
static void note(const char * k, int h, const char * s) {
    fprintf(cf, "%s{\"k\":\"%s\",\"h\":%d,\"s\":\"", ncalls++ ? "," : "", k, h);
    for (; *s; ++s) { if (*s == '\n') fputs("\\n", cf); else if (*s == '"' || *s == '\\') fprintf(cf, "\\%c", *s); else fputc(*s, cf); }
    fputs("\"}", cf);
}
static int ud[3] = {0, 1, 2};
static void on_fatal(void * u, char const * file, int line, char const * msg) {
    char b[600]; const char * f = strrchr(file, '/'); f = f ? f + 1 : file;
    int in = strcmp(f, "d.c") && strcmp(f, "e.c");      /* inside the library: where is its own business */
    snprintf(b, sizeof(b), "%s:%d:%s", in ? "*" : f, in ? 0 : line, msg);
    note("fatal", *(int *) u, b);
}
static void on_print(void * u, char const * str) { note("print", *(int *) u, str); }
static void log_to(int h, const char * format, va_list a) { static char b[20000]; vsnprintf(b, sizeof(b), format, a); note("log", h, b); }
static void on_log1(const char * format, ...) { va_list a; va_start(a, format); log_to(1, format, a); va_end(a); }
static void on_log2(const char * format, ...) { va_list a; va_start(a, format); log_to(2, format, a); va_end(a); }
static int fail_next; static void * slot[8];
static void * give(int h, embc_size_t sz) { char b[40]; snprintf(b, sizeof(b), "%lld", (long long) sz); note("alloc", h, b); if (fail_next) return 0; void * p = malloc(sz ? sz : 1); memset(p, 0xA5, sz); return p; }
static void * give1(embc_size_t sz) { return give(1, sz); }
static void * give2(embc_size_t sz) { return give(2, sz); }
static void take(int h, void * p) { char b[40]; int i = 0; while (i < 8 && slot[i] != p) ++i; snprintf(b, sizeof(b), "%d", p ? (i < 8 ? i : -2) : -1); note("free", h, b); free(p); }
static void take1(void * p) { take(1, p); }
static void take2(void * p) { take(2, p); }
/* --- functions that use the macros; the line directive fixes what they report */
static int passed, at;
#define F(name, stmt) static int name(int a, int b, void * p) { (void) a; (void) b; (void) p; stmt; passed = 1; return 0; }
#line 100 "e.c"
F(t_true, EMBC_DBC_TRUE(a)) F(t_false, EMBC_DBC_FALSE(a)) F(t_notnull, EMBC_DBC_NOT_NULL(p)) F(t_eq, EMBC_DBC_EQUAL(a, b)) F(t_gt, EMBC_DBC_GT(a, b)) F(t_gte, EMBC_DBC_GTE(a, b)) F(t_ne, EMBC_DBC_NE(a, b)) F(t_lt, EMBC_DBC_LT(a, b)) F(t_lte, EMBC_DBC_LTE(a, b)) F(t_gt0, EMBC_DBC_GT_ZERO(a)) F(t_gte0, EMBC_DBC_GTE_ZERO(a)) F(t_ne0, EMBC_DBC_NE_ZERO(a)) F(t_lt0, EMBC_DBC_LT_ZERO(a)) F(t_lte0, EMBC_DBC_LTE_ZERO(a)) F(t_range, EMBC_DBC_RANGE_INT(a, b, b + 2)) F(t_req, EMBC_DBC_REQUIRE(a == b)) F(t_assert, EMBC_DBC_ASSERT(a - b, "own text")) F(t_hard, EMBC_ASSERT(a != b)) F(t_halloc, EMBC_ASSERT_ALLOC(p)) F(t_fatal, EMBC_FATAL("told so"))
F(c_true, EMBC_ARGCHK_TRUE(a)) F(c_false, EMBC_ARGCHK_FALSE(a)) F(c_notnull, EMBC_ARGCHK_NOT_NULL(p)) F(c_gt0, EMBC_ARGCHK_GT_ZERO(a)) F(c_gte0, EMBC_ARGCHK_GTE_ZERO(a)) F(c_ne0, EMBC_ARGCHK_NE_ZERO(a)) F(c_lt0, EMBC_ARGCHK_LT_ZERO(a)) F(c_lte0, EMBC_ARGCHK_LTE_ZERO(a)) F(c_range, EMBC_ARGCHK_RANGE_INT(a, b, b + 2)) F(c_req, EMBC_ARGCHK_REQUIRE(a == b)) F(c_assert, EMBC_ARGCHK_ASSERT(a - b, "own text"))
F(e_ret, EMBC_RETURN_ON_ERROR(a)) F(e_msg, EMBC_RETURN_ON_ERROR_MSG(a, "went wrong"))
static int e_exit(int a, int b, void * p) { int rc = b; (void) p; EMBC_EXIT_ON_ERROR(a); passed = 1; exit: return rc; }
static int e_with(int a, int b, void * p) { int rc = b; (void) p; EMBC_EXIT_WITH_ERROR(rc, a); passed = 1; exit: return rc; }
static void log_at(int lv, const char * how, const char * s) {
    #define L(X) do { at = __LINE__; \
        if (!strcmp(how, "m")) { X(s); } else if (!strcmp(how, "f")) { X("%s %d", s, 42); } else if (!strcmp(how, "lit")) { X("plain 100%%s"); } \
        else if (!strcmp(how, "f11")) { X("%s%d%d%d%d%d%d%d%d%d", s, 1, 2, 3, 4, 5, 6, 7, 8, 9); } } while (0)
    switch (lv) {
        case 0: L(EMBC_LOG_EMERGENCY); break; case 1: L(EMBC_LOG_ALERT); break; case 2: L(EMBC_LOG_CRITICAL); break;
        case 3: L(EMBC_LOG_ERROR); break; case 4: L(EMBC_LOG_WARNING); break; case 5: L(EMBC_LOG_NOTICE); break; case 6: L(EMBC_LOG_INFO); break;
        case 7: L(EMBC_LOG_DEBUG1); break; case 8: L(EMBC_LOG_DEBUG2); break; case 9: L(EMBC_LOG_DEBUG3); break;
        case 13: L(EMBC_LOG_ERR); break; case 14: L(EMBC_LOG_WARN); break; case 17: L(EMBC_LOG_DBG); break; case 27: L(EMBC_LOG_DEBUG); break;
        case 23: L(EMBC_LOGE); break; case 24: L(EMBC_LOGW); break; case 25: L(EMBC_LOGN); break; case 26: L(EMBC_LOGI); break;
        case 37: L(EMBC_LOGD); break; case 47: L(EMBC_LOGD1); break; case 28: L(EMBC_LOGD2); break; case 29: L(EMBC_LOGD3); break;
    }
}
#line 80 "diag.c"
typedef int (*fn)(int, int, void *);
static const struct { const char * n; fn f; } T[] = {
    {"true", t_true}, {"false", t_false}, {"notnull", t_notnull}, {"eq", t_eq}, {"gt", t_gt}, {"gte", t_gte}, {"ne", t_ne}, {"lt", t_lt}, {"lte", t_lte},
    {"gt0", t_gt0}, {"gte0", t_gte0}, {"ne0", t_ne0}, {"lt0", t_lt0}, {"lte0", t_lte0}, {"range", t_range}, {"req", t_req}, {"assert", t_assert}, {"hard", t_hard}, {"halloc", t_halloc}, {"fatal", t_fatal}, {0, 0}},
  C[] = {{"true", c_true}, {"false", c_false}, {"notnull", c_notnull}, {"gt0", c_gt0}, {"gte0", c_gte0}, {"ne0", c_ne0}, {"lt0", c_lt0}, {"lte0", c_lte0}, {"range", c_range}, {"req", c_req}, {"assert", c_assert}, {0, 0}},
  E[] = {{"ret", e_ret}, {"msg", e_msg}, {"exit", e_exit}, {"with", e_with}, {0, 0}};
static fn pick(const void * t, const char * n) { const struct { const char * n; fn f; } * q = t; for (; q->n; ++q) if (!strcmp(q->n, n)) return q->f; fprintf(stderr, "no %s\n", n); exit(97); }
static char * sob; static size_t sol; static FILE * real_out;
static void begin(void) { ncalls = 0; cf = open_memstream(&calls, &calls_len); real_out = stdout; fflush(stdout); stdout = open_memstream(&sob, &sol); }
static void end(void) {
    fclose(stdout); stdout = real_out; if (sol) note("out", 0, sob); free(sob);
    fclose(cf); char * j = malloc(calls_len + 3); sprintf(j, "[%s]", calls); ev_raw("calls", j); free(j); free(calls); ev_end();
}
void h_cmd(const char * op) {
    static const embc_lib_fatal_fn fatals[] = {0, on_fatal, on_fatal}; static const embc_lib_print_fn prints[] = {0, on_print, on_print};
    static const embc_log_printf logs[] = {0, on_log1, on_log2}; static const embc_alloc_fn allocs[] = {0, give1, give2}; static const embc_free_fn frees[] = {0, take1, take2};
    if (!strcmp(op, "reset")) {
        for (int i = 0; i < 8; ++i) { free(slot[i]); slot[i] = 0; }
        embc_lib_fatal_set(0, 0); embc_lib_print_set(0, 0); embc_log_finalize(); embc_allocator_set(0, 0); level_local = 6; level_global = 10;
        ev("reset"); ev_end(); return;
    }
    begin();
    if (!strcmp(op, "fatal_set")) { int h = h_arg(1); embc_lib_fatal_set(fatals[h], &ud[h]); ev(op); ev_i("h", h); }
    else if (!strcmp(op, "print_set")) { int h = h_arg(1); embc_lib_print_set(prints[h], &ud[h]); ev(op); ev_i("h", h); }
    else if (!strcmp(op, "log_init")) { int h = h_arg(1); int r = embc_log_initialize(logs[h]); ev(op); ev_i("h", h); ev_i("r", r); }
    else if (!strcmp(op, "log_fini")) { embc_log_finalize(); ev(op); }
    else if (!strcmp(op, "level")) { level_local = h_arg(1); level_global = h_arg(2); ev(op); ev_i("l", level_local); ev_i("g", level_global); }
    else if (!strcmp(op, "lib_init")) { embc_lib_initialize(); ev(op); }
    else if (!strcmp(op, "alloc_set")) { int a = h_arg(1), f = h_arg(2); embc_allocator_set(allocs[a], frees[f]); ev(op); ev_i("a", a); ev_i("f", f); }
    else if (!strcmp(op, "alloc")) {            /* alloc KIND SLOT SIZE FAIL : kinds plain, clr, lib */
        const char * k = h_args(1); int i = h_arg(2); embc_size_t n = h_arg(3); fail_next = h_arg(4);
        void * p = k[0] == 'p' ? embc_alloc(n) : k[0] == 'c' ? embc_alloc_clr(n) : embc_lib_alloc(n);
        int zero = 1; if (p && k[0] != 'p') for (int j = 0; j < n; ++j) if (((char *) p)[j]) zero = 0;
        if (p) { memset(p, 0x5a, n); slot[i] = p; }
        ev(op); ev_s("kind", k); ev_i("i", i); ev_i("n", n); ev_b("fail", fail_next); ev_b("ok", p != 0); ev_b("zero", zero); fail_next = 0;
    } else if (!strcmp(op, "free")) {           /* free KIND SLOT KEPT : -1 is NULL */
        const char * k = h_args(1); int i = h_arg(2); void * p = i < 0 ? 0 : slot[i];
        if (k[0] == 'l') embc_lib_free(p); else embc_free(p);
        ev(op); ev_s("kind", k); ev_i("i", i);
        if (i >= 0) { if (h_arg(3)) free(slot[i]); slot[i] = 0; }   /* not freed when there is no function for it */
    }
    else if (!strcmp(op, "say")) { embc_fatal("d.c", (int) h_arg(1), h_args(2)); ev(op); ev_i("line", h_arg(1)); ev_s("msg", h_args(2)); }
    else if (!strcmp(op, "log")) { log_at(h_arg(1), h_args(2), h_args(3)); ev(op); ev_i("l", h_arg(1) % 10); ev_i("at", at); ev_s("how", h_args(2)); ev_s("s", h_args(3)); }
    else if (!strcmp(op, "loglong")) { int n = h_arg(2); char * s = malloc(n + 1); memset(s, 'y', n); s[n] = 0; log_at(h_arg(1), "m", s); free(s); ev(op); ev_i("l", h_arg(1) % 10); ev_i("at", at); ev_i("n", n); }
    else if (!strcmp(op, "dbc") || !strcmp(op, "arg") || !strcmp(op, "onerr")) {
        int a = h_arg(2), b = h_arg(3); passed = 0; int r = pick(op[0] == 'd' ? (void *) T : op[0] == 'a' ? (void *) C : (void *) E, h_args(1))(a, b, a ? &a : 0);
        ev(op); ev_s("m", h_args(1)); ev_i("a", a); ev_i("b", b); ev_i("r", r); ev_b("passed", passed);
    }
    else if (!strcmp(op, "ec")) { int e = h_arg(1); ev(op); ev_i("e", e); ev_s("name", embc_error_code_name(e)); ev_s("text", embc_error_code_description(e)); }
    else if (!strcmp(op, "levels")) {
        ev(op); ev_arr("names"); for (int i = 0; i <= EMBC_LOG_LEVEL_ALL; ++i) { char b[80]; snprintf(b, sizeof(b), "\"%s\"", embc_log_level_str[i] ? embc_log_level_str[i] : "(null)"); ev_arr_raw(b); } ev_arr_end();
        char c[12]; memcpy(c, embc_log_level_char, 11); c[11] = 0; ev_s("chars", c);
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
    end();
}
