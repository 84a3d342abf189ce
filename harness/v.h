/* Interface between a harness and the two back ends (symbolic, native replay). */
#ifndef V_H
#define V_H
#include "shim.h"
#include <string.h>
int64_t v_int (const char *name, int64_t lo, int64_t hi);
int64_t v_fork (int64_t x);
int v_choose (const char *name, int n);
double v_double (const char *name, int special);
void v_mpz (mpz_ptr z, const char *name);
void v_mpq (mpq_ptr q, const char *name);
void v_mpfr (mpfr_ptr x, const char *name);
void v_assume (bool c);
void v_check_ (bool c, const char *msg);
void v_fail (const char *msg);
void v_reach (const char *name);
int64_t v_outstanding (void);
void v_fault_on (int mode);
void v_fault_off (void);
int v_fault_fired (void);
void v_fuel (int64_t n);
void v_obs_int (const char *name, int64_t v);
void v_obs_mpz (const char *name, mpz_srcptr z);
void v_obs_mpq (const char *name, mpq_srcptr q);
void v_obs_d (const char *name, double d);
void v_limit (int64_t n);
void v_grow (int on);
int v_shadow (const void *p, int64_t n);
int v_same (int token);
#define v_check(c,m) v_check_ ((bool) (c), m)
#define v_str_(x) #x

/* what the code under test prints, when SuiteSparse_config.printf_func is v_printf: the numbers in order, and the text */
int v_printf (const char *fmt, ...);
void v_pr_reset (void);
int v_pr_calls (void);
int v_pr_n (void);
bool v_pr_has (const char *text);            /* does the text contain this? */
bool v_pr_int (int k, int64_t x);            /* is number k the integer x? */
bool v_pr_dbl (int k, double x);
bool v_pr_mpz (int k, mpz_srcptr x);
bool v_pr_mpq (int k, mpq_srcptr x);
bool v_pr_mpfr (int k, mpfr_srcptr x);       /* is it x, as far as it was printed? */

/* a file, written piece by piece and then read by the code under test */
#include <stdio.h>
FILE *v_file (void);
void v_put_int (FILE *f, int64_t x);
void v_put_dbl (FILE *f, double x);
void v_put_mpz (FILE *f, mpz_srcptr x);
void v_put_text (FILE *f, const char *t);
void v_put_end (FILE *f);                    /* from here on it is read */
#endif
