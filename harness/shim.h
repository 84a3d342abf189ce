/* Included before every file under test and every harness.  It only replaces
   macros of the external number libraries by equivalent functions. */
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#define MPFR_USE_NO_MACRO
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <gmp.h>
#include <mpfr.h>
#ifdef VERIF_SYM
int v_mpz_sgn (mpz_srcptr);
int v_mpq_sgn (mpq_srcptr);
#undef mpz_sgn
#undef mpq_sgn
#undef mpz_even_p
#undef mpz_odd_p
int __gmpz_even_p (mpz_srcptr);
#define mpz_even_p(z) __gmpz_even_p (z)
#define mpz_odd_p(z) (!__gmpz_even_p (z))
#define mpz_sgn(z) v_mpz_sgn (z)
#define mpq_sgn(q) v_mpq_sgn (q)
#endif
#endif
