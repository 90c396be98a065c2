#include "h.h"
#include "embc/cstr.h"
static uint32_t u32; static int32_t i32; static int idx; static bool bl;
static char * str(int i, int * next) {      /* codes from argument i up to "|" or the end; exact allocation */
    int j = i; while (j < h_argc && strcmp(h_argv[j], "|")) ++j;
    char * s = malloc(j - i + 1); for (int k = i; k < j; ++k) s[k - i] = (char) h_arg(k); s[j - i] = 0; *next = j + 1; return s;
}
static void es(const char * k, const char * s) { ev_bytes(k, (const uint8_t *) s, strlen(s)); }
static void num(int neg, uint32_t m) { char b[40]; ev_b("neg", neg); sprintf(b, "[%u,%u]", m >> 16, m & 0xffff); ev_raw("m", b); }
static void inum(void) { num(i32 < 0, i32 < 0 ? (uint32_t) -(int64_t) i32 : (uint32_t) i32); }
void h_cmd(const char * op) {
    int n;
    if (!strcmp(op, "reset")) { u32 = 0; i32 = 0; idx = 0; bl = false; ev("reset"); ev_end();
    } else if (!strcmp(op, "u32")) { char * s = str(1, &n); int rc = embc_cstr_to_u32(s, &u32); ev(op); es("s", s); ev_b("ok", !rc); num(0, u32); ev_end(); free(s);
    } else if (!strcmp(op, "i32")) { char * s = str(1, &n); int rc = embc_cstr_to_i32(s, &i32); ev(op); es("s", s); ev_b("ok", !rc); inum(); ev_end(); free(s);
    } else if (!strcmp(op, "i32s")) { char * s = str(2, &n); int rc = embc_cstr_to_i32s(s, h_arg(1), &i32); ev(op); es("s", s); ev_i("x", h_arg(1)); ev_b("ok", !rc); inum(); ev_end(); free(s);
    } else if (!strcmp(op, "bool")) { char * s = str(1, &n); int rc = embc_cstr_to_bool(s, &bl); ev(op); es("s", s); ev_b("ok", !rc); ev_b("v", bl); ev_end(); free(s);
    } else if (!strcmp(op, "index")) {        /* index s | t1 | t2 ... */
        char * s = str(1, &n); char ** t = malloc(sizeof(*t) * (h_argc + 1)); int k = 0;
        while (n < h_argc) t[k++] = str(n, &n);
        t = realloc(t, sizeof(*t) * (k + 1)); t[k] = 0;
        int rc = embc_cstr_to_index(s, (char const * const *) t, &idx);
        ev(op); es("s", s); ev_arr("t"); for (int i = 0; i < k; ++i) { char b[8192], * p = b; *p++ = '['; for (char * q = t[i]; *q; ++q) p += sprintf(p, "%s%d", q == t[i] ? "" : ",", (uint8_t) *q); strcpy(p, "]"); ev_arr_raw(b); }
        ev_arr_end(); ev_b("ok", !rc); ev_i("v", idx); ev_end();
        for (int i = 0; i < k; ++i) free(t[i]); 
        free(t); free(s);
    } else if (!strcmp(op, "copy")) {         /* copy N NULL codes */
        long sz = h_arg(1), m = sz > 0 ? sz : 0; char * s = str(3, &n); uint8_t * t = malloc(m + 8); memset(t, 0xee, m + 8);
        int rc = embc_cstr_copy((char *) t, h_arg(2) ? 0 : s, sz); int over = 0, z = 0;
        for (int i = 0; i < 8; ++i) over |= t[m + i] != 0xee;
        while (z < m && t[z]) ++z;
        ev(op); es("s", s); ev_b("null", h_arg(2)); ev_i("n", sz); ev_i("rc", rc); ev_bytes("got", t, z); ev_b("over", over || (m && z == m)); ev_end(); free(s); free(t);
    } else if (!strcmp(op, "case")) { char * a = str(1, &n), * b = str(n, &n); int r = embc_cstr_casecmp(a, b); ev(op); es("a", a); es("b", b); ev_i("r", r); ev_end(); free(a); free(b);
    } else if (!strcmp(op, "prefix")) { char * a = str(1, &n), * b = str(n, &n); const char * r = embc_cstr_starts_with(a, b); ev(op); es("s", a); es("p", b); ev_i("r", r ? r - a : -1); ev_end(); free(a); free(b);
    } else if (!strcmp(op, "upper")) { char * s = str(1, &n), * k = strdup(s); int rc = embc_cstr_toupper(s); ev(op); es("s", k); es("r", s); if (rc) ev_i("rc", rc); ev_end(); free(s); free(k);
    } else if (!strcmp(op, "nibbles")) { ev(op); ev_arr("h"); for (int i = 0; i < 256; ++i) ev_arr_i(embc_cstr_hex_to_u4((char) i)); ev_arr_end(); ev_arr("x"); for (int i = 0; i < 256; ++i) ev_arr_i((uint8_t) embc_cstr_u4_to_hex(i)); ev_arr_end(); ev_end();
    } else { fprintf(stderr, "bad op %s\n", op); exit(97); }
}
