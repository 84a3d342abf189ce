/* C16: every wrapper against the operation it names, all aliasing patterns */
#include "common.h"
#include <math.h>

static void put_mpz (mpz_ptr z, const char *s, int kind)
{
    if (kind == 1) mpz_set_si (z, 0) ;
    else if (kind == 2) { int64_t v = v_int (s, INT64_MIN, INT64_MAX) ; mpz_set_si (z, v) ; }
    else v_mpz (z, s) ;
}
/* alias: 0 none, 1 x=y, 2 x=z, 3 y=z, 4 all */
#define PICK(T) T *x = v + 0, *y = al == 1 ? v + 0 : v + 1, *z = al == 2 ? v + 0 : al == 3 ? y : al == 4 ? v + 0 : v + 2 ; if (al == 4) y = x

static int sg (int64_t x) { return x > 0 ? 1 : x < 0 ? -1 : 0 ; }

/* three-operand integer operations */
void h_z3 (void)
{
    int op = v_choose ("op", 6), al = v_choose ("alias", 5), ky = v_choose ("ky", 3), kz = v_choose ("kz", 3) ;
    OK (SLIP_initialize ()) ;
    mpz_t v [3], a, b, c, want, t ;
    for (int k = 0 ; k < 3 ; k++) OK (SLIP_mpz_init (v [k])) ;
    mpz_init (a) ; mpz_init (b) ; mpz_init (c) ; mpz_init (want) ; mpz_init (t) ;
    PICK (mpz_t) ;
    put_mpz (*x, "x", 0) ; put_mpz (*y, "y", ky) ; put_mpz (*z, "z", kz) ;
    if (op == 5)
    {
        /* exact division: y = z * k */
        if (al == 1 || al == 0) { v_mpz (t, "k") ; mpz_mul (*y, *z, t) ; }
        else v_assume (al != 2 || 1) ;
        if (al == 2) { v_mpz (t, "k") ; mpz_mul (*y, *z, t) ; }
    }
    mpz_set (a, *x) ; mpz_set (b, *y) ; mpz_set (c, *z) ;
    SLIP_info r = SLIP_OK ;
    int undef = 0 ;
    switch (op)
    {
        case 0: r = SLIP_mpz_mul (*x, *y, *z) ; mpz_mul (want, b, c) ; break ;
        case 1: r = SLIP_mpz_submul (*x, *y, *z) ; mpz_mul (t, b, c) ; mpz_sub (want, a, t) ; break ;
        case 2: r = SLIP_mpz_gcd (*x, *y, *z) ; mpz_gcd (want, b, c) ; break ;
        case 3: r = SLIP_mpz_lcm (*x, *y, *z) ; mpz_lcm (want, b, c) ; break ;
        case 4: r = SLIP_mpz_abs (*x, *y) ; mpz_abs (want, b) ; break ;
        default:
            undef = mpz_sgn (c) == 0 ;
            r = SLIP_mpz_divexact (*x, *y, *z) ;
            if (!undef) { if (al == 3 || al == 4) mpz_set_si (want, 1) ; else mpz_set (want, t) ; }
            break ;
    }
    if (undef) { v_check (r == SLIP_INCORRECT_INPUT, "division by zero is refused") ; mpz_set (want, a) ; v_reach ("undefined") ; }
    else { v_check (r == SLIP_OK, "success") ; v_reach ("ok") ; }
    v_obs_mpz ("x", *x) ;
    v_check (mpz_cmp (*x, want) == 0, "the result") ;
    if (op == 2 || op == 3 || op == 4) v_check (mpz_sgn (*x) >= 0, "not negative") ;
    if (x != y) v_check (mpz_cmp (*y, b) == 0, "operand not modified") ;
    if (x != z && op != 4) v_check (mpz_cmp (*z, c) == 0, "operand not modified") ;
    for (int k = 0 ; k < 3 ; k++) mpz_clear (v [k]) ;
    mpz_clear (a) ; mpz_clear (b) ; mpz_clear (c) ; mpz_clear (want) ; mpz_clear (t) ;
    OK (SLIP_finalize ()) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

/* assignments, conversions and comparisons of integers */
void h_z1 (void)
{
    int op = v_choose ("op", 13), al = v_choose ("alias", 2), ky = v_choose ("ky", 3) ;
    OK (SLIP_initialize ()) ;
    mpz_t v [2], b, t ;
    mpq_t q ;
    OK (SLIP_mpz_init (v [0])) ;
    if (op == 12) { OK (SLIP_mpz_init2 (v [1], (size_t) v_choose ("bits", 3) * 60)) ; v_check (mpz_sgn (v [1]) == 0, "a new number is zero") ; }
    else OK (SLIP_mpz_init (v [1])) ;
    mpz_init (b) ; mpz_init (t) ; mpq_init (q) ;
    v_check (mpz_sgn (v [0]) == 0, "a new number is zero") ;
    mpz_t *x = v, *y = al ? v : v + 1 ;
    put_mpz (*x, "x", 0) ; put_mpz (*y, "y", ky) ;
    mpz_set (b, *y) ;
    mpz_set (t, *x) ;
    int64_t s = v_int ("s", INT64_MIN, INT64_MAX), g = 0 ;
    uint64_t u = (uint64_t) v_int ("u", INT64_MIN, INT64_MAX) ;
    int r = 77 ;
    double d = 0, e ;
    size_t n = 0 ;
    v_reach ("ok") ;
    switch (op)
    {
        case 0: OK (SLIP_mpz_set (*x, *y)) ; v_check (mpz_cmp (*x, b) == 0, "copy") ; break ;
        case 1: OK (SLIP_mpz_set_ui (*x, u)) ; mpz_set_ui (t, u) ; v_check (mpz_cmp (*x, t) == 0 && mpz_cmp_ui (*x, u) == 0, "unsigned value") ; break ;
        case 2: OK (SLIP_mpz_set_si (*x, s)) ; v_check (mpz_cmp_si (*x, s) == 0, "signed value") ; break ;
        case 3: OK (SLIP_mpz_get_d (&d, *y)) ; e = mpz_get_d (b) ; v_check (d == e, "double") ; break ;
        case 4: v_assume (mpz_fits_slong_p (b)) ; OK (SLIP_mpz_get_si (&g, *y)) ; v_check (mpz_cmp_si (b, g) == 0, "signed value") ; break ;
        case 5: v_mpq (q, "q") ; OK (SLIP_mpz_set_q (*x, q)) ;
                mpz_tdiv_q (t, mpq_numref (q), mpq_denref (q)) ; v_check (mpz_cmp (*x, t) == 0, "truncated rational") ; break ;
        case 6: OK (SLIP_mpz_cmp (&r, *x, *y)) ; mpz_sub (t, *x, *y) ; g = mpz_sgn (t) ; v_check (sg (r) == sg (g), "comparison") ; break ;
        case 7: OK (SLIP_mpz_cmpabs (&r, *x, *y)) ; mpz_abs (t, *x) ; mpz_abs (b, *y) ; mpz_sub (t, t, b) ; g = mpz_sgn (t) ; v_check (sg (r) == sg (g), "comparison of magnitudes") ; mpz_set (b, *y) ; break ;
        case 8: OK (SLIP_mpz_cmp_ui (&r, *y, u)) ; mpz_set_ui (t, u) ; mpz_sub (t, *y, t) ; g = mpz_sgn (t) ; v_check (sg (r) == sg (g), "comparison") ; break ;
        case 9: OK (SLIP_mpz_sgn (&r, *y)) ; g = mpz_cmp_si (b, 0) ; v_check (sg (r) == sg (g), "sign") ; break ;
        case 10: /* number of digits: exact for powers of two, at most one more otherwise */
        {
            static const int bases [] = { 2, 3, 8, 10, 16, 62 } ;
            int bs = bases [v_choose ("base", 6)] ;
            int64_t w = v_fork (v_int ("digits", -70, 70)), k = 0, p = 1 ;
            mpz_set_si (*y, w) ; mpz_set_si (b, w) ;
            OK (SLIP_mpz_sizeinbase (&n, *y, bs)) ;
            if (w < 0) w = -w ;
            while (p <= w) { p *= bs ; k++ ; }
            if (k == 0) k = 1 ;
            v_check ((int64_t) n == k || ((bs & (bs-1)) && (int64_t) n == k + 1), "number of digits") ;
            break ;
        }
        case 11:
        {
            /* bases that are not supported */
            int64_t bs = v_int ("bs", INT64_MIN, INT64_MAX) ;
            v_assume (bs < 2 || bs > 62) ;
            v_check (SLIP_mpz_sizeinbase (&n, *y, bs) == SLIP_INCORRECT_INPUT, "unsupported base is refused") ;
            break ;
        }
        default: mpz_set (v [1], v [0]) ; v_check (mpz_cmp (v [1], v [0]) == 0, "usable") ; mpz_set (b, *y) ; break ;
    }
    if (!(al && (op == 1 || op == 2 || op == 5))) v_check (mpz_cmp (*y, b) == 0, "operand not modified") ;
    if (op == 6 || op == 7) { v_obs_int ("r", sg (r)) ; }
    mpz_clear (v [0]) ; mpz_clear (v [1]) ; mpz_clear (b) ; mpz_clear (t) ; mpq_clear (q) ;
    OK (SLIP_finalize ()) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

static void put_mpq (mpq_ptr q, const char *s, int kind)
{
    if (kind == 1) mpq_set_si (q, 0, 1) ;
    else v_mpq (q, s) ;
}

void h_q3 (void)
{
    int op = v_choose ("op", 5), al = v_choose ("alias", 5), ky = v_choose ("ky", 2), kz = v_choose ("kz", 2) ;
    OK (SLIP_initialize ()) ;
    mpq_t v [3], a, b, c, want ;
    for (int k = 0 ; k < 3 ; k++) { OK (SLIP_mpq_init (v [k])) ; v_check (mpq_sgn (v [k]) == 0, "a new number is zero") ; }
    mpq_init (a) ; mpq_init (b) ; mpq_init (c) ; mpq_init (want) ;
    PICK (mpq_t) ;
    put_mpq (*x, "x", 0) ; put_mpq (*y, "y", ky) ; put_mpq (*z, "z", kz) ;
    mpq_set (a, *x) ; mpq_set (b, *y) ; mpq_set (c, *z) ;
    SLIP_info r = SLIP_OK ;
    int undef = 0 ;
    switch (op)
    {
        case 0: r = SLIP_mpq_add (*x, *y, *z) ; mpq_add (want, b, c) ; break ;
        case 1: r = SLIP_mpq_mul (*x, *y, *z) ; mpq_mul (want, b, c) ; break ;
        case 2: undef = mpq_sgn (c) == 0 ; r = SLIP_mpq_div (*x, *y, *z) ; if (!undef) mpq_div (want, b, c) ; break ;
        case 3: r = SLIP_mpq_abs (*x, *y) ; if (mpq_sgn (b) < 0) mpq_neg (want, b) ; else mpq_set (want, b) ; break ;
        default: r = SLIP_mpq_set (*x, *y) ; mpq_set (want, b) ; break ;
    }
    if (undef) { v_check (r == SLIP_INCORRECT_INPUT, "division by zero is refused") ; mpq_set (want, a) ; v_reach ("undefined") ; }
    else { v_check (r == SLIP_OK, "success") ; v_reach ("ok") ; }
    v_obs_mpq ("x", *x) ;
    v_check (mpq_equal (*x, want), "the result") ;
    if (x != y) v_check (mpq_equal (*y, b), "operand not modified") ;
    if (x != z && op < 3) v_check (mpq_equal (*z, c), "operand not modified") ;
    for (int k = 0 ; k < 3 ; k++) mpq_clear (v [k]) ;
    mpq_clear (a) ; mpq_clear (b) ; mpq_clear (c) ; mpq_clear (want) ;
    OK (SLIP_finalize ()) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

void h_q1 (void)
{
    int op = v_choose ("op", 13), al = v_choose ("alias", 2), ky = v_choose ("ky", 2) ;
    OK (SLIP_initialize ()) ;
    mpq_t v [2], a, b, t ;
    mpz_t z, w ;
    OK (SLIP_mpq_init (v [0])) ; OK (SLIP_mpq_init (v [1])) ;
    mpq_init (a) ; mpq_init (b) ; mpq_init (t) ; mpz_init (z) ; mpz_init (w) ;
    mpq_t *x = v, *y = al ? v : v + 1 ;
    put_mpq (*x, "x", 0) ; put_mpq (*y, "y", ky) ;
    mpq_set (a, *x) ; mpq_set (b, *y) ;
    int64_t s = v_int ("s", INT64_MIN, INT64_MAX), g ;
    uint64_t u = (uint64_t) v_int ("u", INT64_MIN, INT64_MAX) ;
    int r = 77, keep = 1 ;
    double d ;
    v_reach ("ok") ;
    switch (op)
    {
        case 0: v_mpz (z, "z") ; OK (SLIP_mpq_set_z (*x, z)) ; mpz_set (w, mpq_numref (*x)) ;
                v_check (mpz_cmp (w, z) == 0 && mpz_cmp_si (mpq_denref (*x), 1) == 0, "integer value") ; keep = 0 ; break ;
        case 1:
        {
            d = v_double ("d", 1) ;
            SLIP_info ret = SLIP_mpq_set_d (*x, d) ;
            if (isfinite (d)) { v_check (ret == SLIP_OK, "success") ; mpq_set_d (t, d) ; v_check (mpq_equal (*x, t), "the double's value") ; }
            else { v_check (ret == SLIP_INCORRECT_INPUT, "not a number: refused") ; v_check (mpq_equal (*x, a), "unchanged") ; v_reach ("undefined") ; }
            keep = 0 ; break ;
        }
        case 2: v_assume (u != 0) ; { uint64_t n = (uint64_t) s ; OK (SLIP_mpq_set_ui (*x, n, u)) ; mpz_set_ui (w, n) ;
                v_check (mpz_cmp (mpq_numref (*x), w) == 0, "numerator") ; mpz_set_ui (w, u) ; v_check (mpz_cmp (mpq_denref (*x), w) == 0, "denominator") ; }
                mpq_set_si (*x, 0, 1) ; keep = 0 ; break ;
        case 3: v_assume (u != 0) ; OK (SLIP_mpq_set_si (*x, s, u)) ; v_check (mpz_cmp_si (mpq_numref (*x), s) == 0, "numerator") ;
                mpz_set_ui (w, u) ; v_check (mpz_cmp (mpq_denref (*x), w) == 0, "denominator") ; mpq_set_si (*x, 0, 1) ; keep = 0 ; break ;
        case 4: v_mpz (z, "z") ; OK (SLIP_mpq_set_num (*x, z)) ; v_check (mpz_cmp (mpq_numref (*x), z) == 0 && mpz_cmp (mpq_denref (*x), mpq_denref (a)) == 0, "numerator") ; keep = 0 ; break ;
        case 5: v_mpz (z, "z") ; v_assume (mpz_sgn (z) > 0) ; OK (SLIP_mpq_set_den (*x, z)) ; v_check (mpz_cmp (mpq_denref (*x), z) == 0 && mpz_cmp (mpq_numref (*x), mpq_numref (a)) == 0, "denominator") ; keep = 0 ; break ;
        case 6: OK (SLIP_mpq_get_den (z, *y)) ; v_check (mpz_cmp (z, mpq_denref (b)) == 0, "denominator") ; break ;
        case 7: OK (SLIP_mpq_get_d (&d, *y)) ; { double e = mpq_get_d (b) ; v_check (d == e, "double") ; } break ;
        case 8: OK (SLIP_mpq_cmp (&r, *x, *y)) ; mpq_sub (t, a, b) ; g = mpq_sgn (t) ; v_check (sg (r) == sg (g), "comparison") ; v_obs_int ("r", sg (r)) ; break ;
        case 9:
        {
            uint64_t n = (uint64_t) s ;
            SLIP_info ret = SLIP_mpq_cmp_ui (&r, *y, n, u) ;
            if (u == 0) { v_check (ret == SLIP_INCORRECT_INPUT, "zero denominator is refused") ; v_reach ("undefined") ; break ; }
            v_check (ret == SLIP_OK, "success") ;
            /* y - n/u has the sign of num*u - n*den */
            mpz_set_ui (z, u) ; mpz_mul (z, z, mpq_numref (b)) ; mpz_set_ui (w, n) ; mpz_mul (w, w, mpq_denref (b)) ; mpz_sub (z, z, w) ;
            g = mpz_sgn (z) ; v_check (sg (r) == sg (g), "comparison") ;
            break ;
        }
        case 10: OK (SLIP_mpq_sgn (&r, *y)) ; g = mpz_sgn (mpq_numref (b)) ; v_check (sg (r) == sg (g), "sign") ; break ;
        case 11: OK (SLIP_mpq_equal (&r, *x, *y)) ; mpq_sub (t, a, b) ; g = mpq_sgn (t) ; v_check ((r != 0) == (g == 0), "equality") ; v_obs_int ("r", r != 0) ; break ;
        default: OK (SLIP_mpz_set_q (z, *y)) ; mpz_tdiv_q (w, mpq_numref (b), mpq_denref (b)) ; v_check (mpz_cmp (z, w) == 0, "truncated") ; break ;
    }
    if (keep) v_check (mpq_equal (*y, b) && mpq_equal (*x, a), "operands not modified") ;
    mpq_clear (v [0]) ; mpq_clear (v [1]) ; mpq_clear (a) ; mpq_clear (b) ; mpq_clear (t) ; mpz_clear (z) ; mpz_clear (w) ;
    OK (SLIP_finalize ()) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

static int same_f (mpfr_ptr a, mpfr_ptr b)
{
    if (mpfr_nan_p (a) || mpfr_nan_p (b)) return mpfr_nan_p (a) && mpfr_nan_p (b) ;
    return mpfr_equal_p (a, b) ;
}
static void put_mpfr (mpfr_ptr f, const char *s, int kind)
{
    switch (kind)
    {
        case 0: v_mpfr (f, s) ; break ;
        case 1: mpfr_set_zero (f, 1) ; break ;
        case 2: mpfr_set_inf (f, -1) ; break ;
        default: mpfr_set_nan (f) ; break ;
    }
}

void h_f (void)
{
    static const int prec [] = { 24, 53, 128, 200 } ;
    int op = v_choose ("op", 15), al = v_choose ("alias", 3), ky = v_choose ("ky", 4), kz = v_choose ("kz", 2) ;
    int px = prec [v_choose ("px", 4)], py = prec [v_choose ("py", 4)] ;
    mpfr_rnd_t rnd = v_choose ("rnd", 5) ;
    OK (SLIP_initialize ()) ;
    mpfr_t v [3], b, c, want ;
    mpz_t z, w ;
    mpq_t q, p ;
    if (al) py = px ;
    OK (SLIP_mpfr_init2 (v [0], px)) ; OK (SLIP_mpfr_init2 (v [1], py)) ; OK (SLIP_mpfr_init2 (v [2], py)) ;
    v_check (mpfr_get_prec (v [0]) == px && mpfr_get_prec (v [1]) == py, "requested precision") ;
    mpfr_init2 (b, py) ; mpfr_init2 (c, py) ; mpfr_init2 (want, px) ;
    mpz_init (z) ; mpz_init (w) ; mpq_init (q) ; mpq_init (p) ;
    mpfr_t *x = v, *y = al == 1 ? v : v + 1, *zz = al == 2 ? v : v + 2 ;
    mpfr_set_si (*x, 5, MPFR_RNDN) ;
    put_mpfr (*y, "y", ky) ; put_mpfr (*zz, "z", kz) ;
    mpfr_set (b, *y, MPFR_RNDN) ; mpfr_set (c, *zz, MPFR_RNDN) ;
    int result = 1, r ;
    int64_t s, g ;
    double d, e ;
    v_reach ("ok") ;
    switch (op)
    {
        case 0: OK (SLIP_mpfr_set (*x, *y, rnd)) ; mpfr_set (want, b, rnd) ; break ;
        case 1: d = v_double ("d", 1) ; OK (SLIP_mpfr_set_d (*x, d, rnd)) ; mpfr_set_d (want, d, rnd) ; break ;
        case 2: s = v_int ("s", INT64_MIN, INT64_MAX) ; OK (SLIP_mpfr_set_si (*x, s, rnd)) ; mpfr_set_si (want, s, rnd) ; break ;
        case 3: v_mpq (q, "q") ; OK (SLIP_mpfr_set_q (*x, q, rnd)) ; mpfr_set_q (want, q, rnd) ; break ;
        case 4: v_mpz (z, "zz") ; OK (SLIP_mpfr_set_z (*x, z, rnd)) ; mpfr_set_z (want, z, rnd) ; break ;
        case 5: v_assume (ky < 2) ; OK (SLIP_mpfr_get_z (z, *y, rnd)) ; mpfr_get_z (w, b, rnd) ; v_check (mpz_cmp (z, w) == 0, "rounded integer") ; result = 0 ; break ;
        case 6: v_assume (ky < 2) ; OK (SLIP_mpfr_get_q (q, *y, rnd)) ; mpfr_get_q (p, b) ; v_check (mpq_equal (q, p), "exact rational") ; result = 0 ; break ;
        case 7: OK (SLIP_mpfr_get_d (&d, *y, rnd)) ; e = mpfr_get_d (b, rnd) ; v_check (d == e || (d != d && e != e), "double") ; result = 0 ; break ;
        case 8: v_assume (ky < 2) ; OK (SLIP_mpfr_get_si (&s, *y, rnd)) ; g = mpfr_get_si (b, rnd) ; v_check (s == g, "signed integer") ; result = 0 ; break ;
        case 9: v_assume (ky < 2 && kz < 2) ; OK (SLIP_mpfr_mul (*x, *y, *zz, rnd)) ; mpfr_mul (want, b, c, rnd) ; break ;
        case 10: v_assume (ky < 2) ; d = v_double ("d", 0) ; OK (SLIP_mpfr_mul_d (*x, *y, d, rnd)) ; mpfr_mul_d (want, b, d, rnd) ; break ;
        case 11: v_assume (ky < 2) ; d = v_double ("d", 0) ; v_assume (d != 0) ; OK (SLIP_mpfr_div_d (*x, *y, d, rnd)) ; mpfr_div_d (want, b, d, rnd) ; break ;
        case 12: { uint64_t n = v_choose ("n", 5), k = v_choose ("k", 4) * 5 ; OK (SLIP_mpfr_ui_pow_ui (*x, n, k, rnd)) ; mpfr_ui_pow_ui (want, n, k, rnd) ; } break ;
        case 13: v_assume (ky < 2) ; OK (SLIP_mpfr_sgn (&r, *y)) ; g = mpfr_sgn (b) ; v_check (sg (r) == sg (g), "sign") ; result = 0 ; break ;
        default: OK (SLIP_mpfr_free_cache ()) ; result = 0 ; break ;
    }
    if (result) v_check (same_f (*x, want), "the result") ;
    else if (al != 1) v_check (mpfr_get_si (*x, MPFR_RNDN) == 5 || al == 2, "operand not modified") ;
    if (y != x) v_check (same_f (*y, b), "operand not modified") ;
    if (zz != x) v_check (same_f (*zz, c), "operand not modified") ;
    for (int k = 0 ; k < 3 ; k++) mpfr_clear (v [k]) ;
    mpfr_clear (b) ; mpfr_clear (c) ; mpfr_clear (want) ; mpz_clear (z) ; mpz_clear (w) ; mpq_clear (q) ; mpq_clear (p) ;
    OK (SLIP_finalize ()) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

/* precisions that do not exist */
void h_prec (void)
{
    OK (SLIP_initialize ()) ;
    mpfr_t x ;
    int64_t p = v_int ("p", INT64_MIN, INT64_MAX) ;
    v_assume (p < MPFR_PREC_MIN || p > MPFR_PREC_MAX) ;
    v_check (SLIP_mpfr_init2 (x, (uint64_t) p) == SLIP_INCORRECT_INPUT, "refused") ;
    v_reach ("undefined") ;
    OK (SLIP_finalize ()) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}
