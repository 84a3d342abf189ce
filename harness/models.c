/* Comparison of the GMP/MPFR models with the real libraries: every operation on symbolic operands; the witnesses of the
   explored paths are replayed natively and must give the same values (check.py SELF). */
#include "v.h"
#include <stdlib.h>
#include <math.h>
#include "SLIP_LU.h"
void h_zops (void)
{
    int op = v_choose ("op", 34), va = v_choose ("va", 2), vb = v_choose ("vb", 3);
    mpz_t a, b, r, q;
    mpz_init (a); mpz_init (b); mpz_init (r); mpz_init (q);
    v_mpz (a, "a");
    if (va) { mpz_set_si (a, v_int ("as", -7, 1000)); }
    if (vb == 0) { mpz_set_si (b, 7); } else if (vb == 1) { mpz_set_si (b, -3); } else { v_mpz (b, "b"); v_assume (mpz_sgn (b) != 0); }
    uint64_t c = (uint64_t) v_int ("c", 1, 9);
    int64_t s = 0;
    switch (op)
    {
        case 0: mpz_add_ui (r, a, c); break;
        case 1: mpz_sub_ui (r, a, c); break;
        case 2: mpz_ui_sub (r, c, a); break;
        case 3: mpz_set (r, b); mpz_addmul_ui (r, a, c); break;
        case 4: mpz_set (r, b); mpz_submul_ui (r, a, c); break;
        case 5: mpz_tdiv_q (r, a, b); break;
        case 6: mpz_fdiv_q (r, a, b); break;
        case 7: mpz_cdiv_q (r, a, b); break;
        case 8: mpz_tdiv_r (r, a, b); break;
        case 9: mpz_fdiv_r (r, a, b); break;
        case 10: mpz_cdiv_r (r, a, b); break;
        case 11: mpz_tdiv_qr (q, r, a, b); break;
        case 12: mpz_fdiv_qr (q, r, a, b); break;
        case 13: mpz_cdiv_qr (q, r, a, b); break;
        case 14: mpz_mod (r, a, b); break;
        case 15: s = (int64_t) mpz_tdiv_q_ui (r, a, c); break;
        case 16: s = (int64_t) mpz_fdiv_q_ui (r, a, c); break;
        case 17: s = (int64_t) mpz_cdiv_q_ui (r, a, c); break;
        case 18: s = (int64_t) mpz_fdiv_ui (a, c); break;
        case 19: mpz_tdiv_q_2exp (r, a, 3); break;
        case 20: mpz_fdiv_q_2exp (r, a, 3); break;
        case 21: s = mpz_divisible_p (a, b) != 0; break;
        case 22: s = mpz_divisible_ui_p (a, c) != 0; break;
        case 23: mpz_lcm_ui (r, b, c); break;
        case 24: s = mpz_fits_sint_p (a) != 0; break;
        case 25: s = mpz_fits_ulong_p (a) != 0; break;
        case 26: s = mpz_even_p (a) != 0; break;
        case 27: mpz_abs (r, a); break;
        case 28: mpz_mul_2exp (r, a, 5); break;
        case 29: mpz_gcd (r, a, b); break;
        case 30: mpz_lcm (r, a, b); break;
        case 31: mpz_set_d (r, 1e20); mpz_add (r, r, a); break;
        case 32: mpz_pow_ui (r, a, 3); break;
        case 33: s = mpz_cmpabs (a, b); s = s > 0 ? 1 : s < 0 ? -1 : 0; break;
    }
    v_obs_mpz ("r", r); v_obs_mpz ("q", q); v_obs_int ("s", s);
    mpz_clear (a); mpz_clear (b); mpz_clear (r); mpz_clear (q);
}
void h_fops (void)
{
    int op = v_choose ("op", 30), rnd = v_choose ("rnd", 5), big = v_choose ("big", 2);
    mpfr_t a, b, r; mpz_t z; mpq_t q;
    mpfr_init2 (a, 60); mpfr_init2 (b, 60); mpfr_init2 (r, big ? 128 : 24); mpz_init (z); mpq_init (q);
    v_mpfr (a, "a"); v_mpfr (b, "b");
    v_assume (mpfr_sgn (b) != 0);
    v_mpz (z, "z"); v_assume (mpz_sgn (z) != 0);
    mpq_set_si (q, v_int ("qn", 1, 3), 7);
    int64_t y = v_int ("y", 1, 5); double x = v_double ("x", 0); v_assume (x != 0);
    mpfr_rnd_t R = (mpfr_rnd_t) rnd;
    switch (op)
    {
        case 0: mpfr_add (r, a, b, R); break;
        case 1: mpfr_sub (r, a, b, R); break;
        case 2: mpfr_mul (r, a, b, R); break;
        case 3: mpfr_div (r, a, b, R); break;
        case 4: mpfr_add_d (r, a, x, R); break;
        case 5: mpfr_sub_d (r, a, x, R); break;
        case 6: mpfr_mul_z (r, a, z, R); break;
        case 7: mpfr_div_z (r, a, z, R); break;
        case 8: mpfr_add_z (r, a, z, R); break;
        case 9: mpfr_mul_q (r, a, q, R); break;
        case 10: mpfr_div_q (r, a, q, R); break;
        case 11: mpfr_add_q (r, a, q, R); break;
        case 12: mpfr_mul_si (r, a, -y, R); break;
        case 13: mpfr_div_ui (r, a, (unsigned long) y, R); break;
        case 14: mpfr_ui_div (r, (unsigned long) y, b, R); break;
        case 15: mpfr_d_div (r, x, b, R); break;
        case 16: mpfr_abs (r, a, R); break;
        case 17: mpfr_mul_2si (r, a, -3, R); break;
        case 18: mpfr_div_2ui (r, a, 4, R); break;
        case 19: mpfr_swap (r, a); mpfr_swap (r, a); mpfr_set (r, a, R); break;
        case 20: mpfr_set_prec (r, 200); mpfr_set (r, a, R); break;
        case 21: mpfr_set (r, a, R); mpfr_prec_round (r, 12, R); break;
        case 22: mpfr_set_si (r, mpfr_cmp_d (a, x) > 0, R); break;
        case 23: mpfr_set_si (r, mpfr_cmp_z (a, z) > 0, R); break;
        case 24: mpfr_set_si (r, mpfr_cmp_si (a, y) > 0, R); break;
        case 25: mpfr_set_si (r, mpfr_integer_p (a) != 0, R); break;
        case 26: mpfr_set_si (r, mpfr_fits_slong_p (a, R) != 0, R); break;
        case 27: mpfr_sqr (r, a, R); break;
        case 28: mpfr_set_si (r, mpfr_signbit (b) != 0, R); break;
        case 29: mpfr_set_d (r, x > 1 ? 1 : x, R); break;
    }
    mpq_t o; mpq_init (o);
    mpfr_get_q (o, r);
    v_obs_mpq ("r", o);
    mpq_clear (o); mpfr_clear (a); mpfr_clear (b); mpfr_clear (r); mpz_clear (z); mpq_clear (q);
}
typedef struct { int64_t a, b; } two;
typedef struct { int64_t a, b, c; } three;
__attribute__((noinline)) static two mk2 (int64_t a, int64_t b) { two t = { b, a }; return t; }
__attribute__((noinline)) static three mk3 (int64_t a, int64_t b) { three t = { b, a, a - b }; return t; }
__attribute__((noinline)) static int64_t use3 (three t) { t.a += 1; t.c *= 2; return t.a + t.b * 3 + t.c * 5; }
__attribute__((noinline)) static int64_t use2 (two t) { t.a += 1; return t.a + 3 * t.b; }
void h_lang (void)
{
    int64_t x = v_int ("x", -100, 100), y = v_int ("y", 0, 50), r = 0, w = v_int ("w", INT64_MIN, INT64_MAX);
    two t = mk2 (x, y); three u = mk3 (x, y);
    v_obs_int ("u2", use2 (t)); v_obs_int ("u3", use3 (u)); v_obs_int ("t", t.a); v_obs_int ("u", u.a + u.c);
    bool o1 = __builtin_mul_overflow (w, x, &r);
    v_obs_int ("o1", o1); if (!o1) { v_obs_int ("r1", r); }
    size_t z; bool o2 = __builtin_mul_overflow ((size_t) y, (size_t) 16, &z);
    v_obs_int ("o2", o2 ? -1 : (int64_t) z);
    bool o3 = __builtin_add_overflow (w, y, &r); v_obs_int ("o3", o3);
    v_obs_int ("labs", labs (x)); v_obs_int ("abs", abs ((int) x));
    int64_t p [3] = { 1, y, 3 }, q [3] = { 1, 5, 3 };
    v_obs_int ("memcmp", memcmp (p, q, sizeof (p)) == 0);
    v_obs_int ("strcmp", strcmp ("abc", "abd") < 0);
    v_obs_int ("strncmp", strncmp ("abc", "abd", 2));
    double d = v_double ("d", 0);
    v_obs_int ("fmax", fmax (d, 2.5) == 2.5); v_obs_int ("fmin", fmin (d, 2.5) == d);
    int64_t m = x > y ? x : y; v_obs_int ("max", m);
    const char *s = x > 0 ? "pos" : "neg"; v_obs_int ("s0", s [0]);
    switch (v_choose ("sw", 4)) { case 0: r = 1; break; case 1: r = 5; /* fall through */ case 2: r = 9; break; default: r = 7; }
    v_obs_int ("sw", r);
}
