/* Common part of every harness: a script interpreter that drives the real
 * library through its public API and writes one JSON event per public call. */
#ifndef VERIF_H_
#define VERIF_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <setjmp.h>

extern FILE * h_out;
/* JSON event writer */
void ev(const char * op);              /* begin event  {"op":"..."        */
void ev_i(const char * k, long long v);
void ev_b(const char * k, int v);      /* boolean */
void ev_s(const char * k, const char * s);
void ev_raw(const char * k, const char * json);
void ev_ai(const char * k, const long long * v, int n);   /* array of int */
void ev_bytes(const char * k, const uint8_t * v, int n);  /* array of int */
void ev_arr(const char * k);           /* open array of scalars / objects */
void ev_arr_i(long long v);
void ev_arr_raw(const char * json);
void ev_arr_end(void);
void ev_end(void);                     /* close + flush */
/* allocation accounting (embc_alloc) */
extern long h_live;                    /* live embc_alloc blocks */
void h_alloc_init(void);
/* script */
extern int h_argc;
extern char * h_argv[8192];
long long h_arg(int i);                /* integer argument i (1-based) */
const char * h_args(int i);
void h_cmd(const char * op);           /* implemented by the harness */
/* when set, embc_fatal longjmps here instead of ending the run */
extern int h_fatal_expected;
extern jmp_buf h_fatal_jmp;
extern int h_fatal_count;
#endif
