#include "common.h"

/* true value of entry k of M */
static void val (mpq_ptr q, const SLIP_matrix *M, int64_t k)
{
    switch (M->type)
    {
        case SLIP_MPZ: mpq_set_z (q, M->x.mpz [k]) ; mpq_div (q, q, M->scale) ; break ;
        case SLIP_MPQ: mpq_set (q, M->x.mpq [k]) ; break ;
        case SLIP_MPFR: mpfr_get_q (q, M->x.mpfr [k]) ; break ;
        case SLIP_INT64: mpq_set_si (q, M->x.int64 [k], 1) ; break ;
        case SLIP_FP64: mpq_set_d (q, M->x.fp64 [k]) ; break ;
    }
}

static void set_val (SLIP_matrix *M, int64_t k, int sym)
{
    static const int tab [] = { 3, 0, -5, 2, 7, -1, 4, 9, -8 } ;
    int c = tab [k % 9] ;
    switch (M->type)
    {
        case SLIP_MPZ: if (sym) v_mpz (M->x.mpz [k], nm2 ("v", k, -1)) ; else mpz_set_si (M->x.mpz [k], c) ; break ;
        case SLIP_MPQ: if (sym) v_mpq (M->x.mpq [k], nm2 ("v", k, -1)) ; else { mpq_set_si (M->x.mpq [k], c, 2) ; mpq_canonicalize (M->x.mpq [k]) ; } break ;
        case SLIP_MPFR: if (sym) v_mpfr (M->x.mpfr [k], nm2 ("v", k, -1)) ; else mpfr_set_si (M->x.mpfr [k], c, MPFR_RNDN) ; break ;
        case SLIP_INT64: M->x.int64 [k] = sym ? v_int (nm2 ("v", k, -1), INT64_MIN, INT64_MAX) : c ; break ;
        case SLIP_FP64: M->x.fp64 [k] = sym ? v_double (nm2 ("v", k, -1), 0) : c * 0.5 ; break ;
    }
}

/* m-by-n matrix with pattern pat (bit i+m*j), entries in sym symbolic.
   extra: unused room in the arrays; dup: (triplet) position 0 stored twice */
static SLIP_matrix *mk (int kind, int type, int m, int n, int64_t pat, int64_t sym, int rev, int extra, int dup, const SLIP_options *o)
{
    SLIP_matrix *A = NULL ;
    int64_t cnt = 0 ;
    for (int t = 0 ; t < m*n ; t++) if (pat >> t & 1) cnt++ ;
    if (kind == SLIP_DENSE)
    {
        OK (SLIP_matrix_allocate (&A, SLIP_DENSE, type, m, n, m*n, false, true, o)) ;
        for (int t = 0 ; t < m*n ; t++) if (pat >> t & 1) set_val (A, t, sym >> t & 1) ;
        return A ;
    }
    OK (SLIP_matrix_allocate (&A, kind, type, m, n, cnt + extra + (dup && cnt), false, true, o)) ;
    cnt = 0 ;
    for (int j = 0 ; j < n ; j++)
    {
        if (kind == SLIP_CSC) A->p [j] = cnt ;
        for (int u = 0 ; u < m ; u++)
        {
            int i = rev ? m-1-u : u, t = i + m*j ;
            if (!(pat >> t & 1)) continue ;
            A->i [cnt] = i ;
            if (kind == SLIP_TRIPLET) A->j [cnt] = j ;
            set_val (A, cnt, sym >> t & 1) ;
            cnt++ ;
        }
    }
    if (kind == SLIP_CSC) A->p [n] = cnt ;
    if (kind == SLIP_TRIPLET)
    {
        if (dup && cnt) { A->i [cnt] = A->i [0] ; A->j [cnt] = A->j [0] ; set_val (A, cnt, 0) ; cnt++ ; }
        A->nz = cnt ;
        if (rev)
        {
            /* rows-first order: entries of a column are no longer together */
            for (int64_t a = 0, b = cnt-1 ; a < b ; a += 2, b--)
            {
                int64_t t = A->i [a] ; A->i [a] = A->i [b] ; A->i [b] = t ;
                t = A->j [a] ; A->j [a] = A->j [b] ; A->j [b] = t ;
                if (type == SLIP_MPZ) mpz_swap (A->x.mpz [a], A->x.mpz [b]) ;
                if (type == SLIP_MPQ) mpq_swap (A->x.mpq [a], A->x.mpq [b]) ;
            }
        }
    }
    return A ;
}

/* k-th stored entry (row, column) of a matrix; returns the number of entries */
static int64_t count (const SLIP_matrix *A)
{
    return A->kind == SLIP_CSC ? A->p [A->n] : A->kind == SLIP_TRIPLET ? A->nz : A->m * A->n ;
}
static void where (const SLIP_matrix *A, int64_t k, int64_t *i, int64_t *j)
{
    if (A->kind == SLIP_DENSE) { *i = k % A->m ; *j = k / A->m ; return ; }
    *i = A->i [k] ;
    if (A->kind == SLIP_TRIPLET) { *j = A->j [k] ; return ; }
    *j = 0 ;
    while (A->p [*j+1] <= k) (*j)++ ;
}
/* number of stored entries at (i,j), and their sum */
static int at (mpq_ptr s, const SLIP_matrix *A, int64_t i, int64_t j)
{
    mpq_t t ;
    mpq_init (t) ;
    int c = 0 ;
    mpq_set_ui (s, 0, 1) ;
    for (int64_t k = 0 ; k < count (A) ; k++)
    {
        int64_t a, b ;
        where (A, k, &a, &b) ;
        if (a == i && b == j) { val (t, A, k) ; mpq_add (s, s, t) ; c++ ; }
    }
    mpq_clear (t) ;
    return c ;
}

/* structure of a result */
static void valid (const SLIP_matrix *C, int kind, int type, int64_t m, int64_t n)
{
    v_check (C != NULL && C->kind == kind && C->type == type && C->m == m && C->n == n, "requested shape, format and type") ;
    v_check (!C->p_shallow && !C->i_shallow && !C->j_shallow && !C->x_shallow, "copy is not shallow") ;
    v_check ((C->p != NULL) == (kind == SLIP_CSC) && (C->i != NULL) == (kind != SLIP_DENSE) && (C->j != NULL) == (kind == SLIP_TRIPLET), "components of the format") ;
    if (kind == SLIP_CSC)
    {
        v_check (C->p [0] == 0, "p[0] = 0") ;
        for (int64_t j = 0 ; j < n ; j++) v_check (C->p [j] <= C->p [j+1], "column pointers do not decrease") ;
    }
    int64_t nz = count (C) ;
    v_check (nz >= 0 && nz <= C->nzmax, "entries fit") ;
    if (kind != SLIP_DENSE) for (int64_t k = 0 ; k < nz ; k++)
    {
        v_check (C->i [k] >= 0 && C->i [k] < m, "row index in range") ;
        if (kind == SLIP_TRIPLET) v_check (C->j [k] >= 0 && C->j [k] < n, "column index in range") ;
    }
}

/* C09: format conversion with the same value type */
void h_copy (void)
{
    int sk = v_choose ("skind", 3), dk = v_choose ("dkind", 3), ty = v_choose ("type", 5) ;
    int m = v_choose ("m", 4), n = v_choose ("n", 4) ;
    int64_t pat = v_choose ("pat", 1 << (m*n)), sym = v_choose ("sym", 1 << (m*n)) ;
    int rev = v_choose ("rev", 2), extra = v_choose ("extra", 3), dup = v_choose ("dup", 2) ;
    int sc = ty == SLIP_MPZ ? v_choose ("scale", 2) : 0 ;
    start () ;
    SLIP_options *o = mk_opt () ;
    SLIP_matrix *A = mk (sk, ty, m, n, pat, sym & pat, rev, extra, dup, o), *C = NULL ;
    if (sc) pos_scale (A->scale, "scale") ;
    snap_t s ;
    snap_take (&s, A) ;
    OK (SLIP_matrix_copy (&C, dk, ty, A, o)) ;
    v_reach ("copied") ;
    snap_same (&s, A, "source unchanged") ;
    snap_drop (&s) ;
    valid (C, dk, ty, m, n) ;
    if (ty == SLIP_MPZ) v_check (mpq_equal (C->scale, A->scale) != 0, "scale of the integers is kept") ;
    mpq_t a, c ;
    mpq_init (a) ; mpq_init (c) ;
    int hasdup = dup && sk == SLIP_TRIPLET ;
    for (int j = 0 ; j < n ; j++)
        for (int i = 0 ; i < m ; i++)
        {
            int na = at (a, A, i, j), nc = at (c, C, i, j) ;
            if (!(hasdup && dk == SLIP_DENSE && na > 1))
            {
                v_check (mpq_equal (a, c) != 0, "same value at every position") ;
            }
            if (sk != SLIP_DENSE && dk != SLIP_DENSE) v_check (na == nc, "same entries are stored") ;
            if (sk == SLIP_DENSE && dk != SLIP_DENSE) v_check (nc <= 1, "an entry is stored once") ;
            if (dk != SLIP_DENSE && nc == 0) v_check (mpq_sgn (a) == 0, "no entry is lost") ;
        }
    v_obs_int ("nz", count (C)) ;
    int64_t nz = -9 ;
    v_check ((nz = SLIP_matrix_nnz (C, o)) == count (C), "number of entries") ;
    if (!hasdup) v_check (SLIP_matrix_check (C, o) == SLIP_OK, "the copy is a valid matrix") ;
    mpq_clear (a) ; mpq_clear (c) ;
    SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&C, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

static const int precs [] = { 128, 53, 24, 200 } ;

/* entry t of C (t < 0: none stored) is the conversion of entry k of A */
static void check_entry (const SLIP_matrix *A, int64_t k, const SLIP_matrix *C, int64_t t, int rnd, int pr)
{
    int st = A->type, dt = C->type ;
    mpq_t a, c, d ;
    mpfr_t f ;
    mpq_init (a) ; mpq_init (c) ; mpq_init (d) ;
    mpfr_init2 (f, pr) ;
    int nonfinite = st == SLIP_FP64 && (dt == SLIP_INT64 || dt == SLIP_FP64) && !(A->x.fp64 [k] - A->x.fp64 [k] == 0) ;
    if (!nonfinite) val (a, A, k) ;
    switch (dt)
    {
        case SLIP_MPZ:
            v_check (mpq_sgn (C->scale) > 0, "scale is positive") ;
            /* a tiny floating-point number may become the integer zero: see C11 */
            if (t < 0) { v_check (st == SLIP_MPFR || st == SLIP_FP64 || mpq_sgn (a) == 0, "only zeros are left out") ; break ; }
            if (st == SLIP_MPZ || st == SLIP_INT64 || st == SLIP_MPQ)
            {
                val (c, C, t) ;
                v_check (mpq_equal (a, c) != 0, "conversion to integers is exact") ;
            }
            break ;
        case SLIP_MPQ:
            if (t < 0) { v_check (mpq_sgn (a) == 0, "only zeros are left out") ; break ; }
            v_check (mpq_equal (a, C->x.mpq [t]) != 0, "conversion to rationals is exact") ;
            break ;
        case SLIP_MPFR:
            if (st == SLIP_MPFR) mpfr_set (f, A->x.mpfr [k], rnd) ;
            else mpfr_set_q (f, a, rnd) ;
            if (t < 0) { v_check (mpfr_sgn (f) == 0, "only zeros are left out") ; break ; }
            v_check (mpfr_get_prec (C->x.mpfr [t]) == pr, "precision of the option") ;
            v_check (mpfr_equal_p (f, C->x.mpfr [t]) != 0, "correctly rounded") ;
            break ;
        case SLIP_INT64:
        {
            int64_t y = t < 0 ? 0 : C->x.int64 [t] ;
            if (nonfinite)
            {
                double x = A->x.fp64 [k] ;
                v_check (y == (x > 0 ? INT64_MAX : x < 0 ? INT64_MIN : 0), "NaN and infinities") ;
                break ;
            }
            if (st == SLIP_MPFR)
            {
                v_check (y == mpfr_get_si (A->x.mpfr [k], rnd), "rounded with the selected mode") ;
                break ;
            }
            /* toward zero, with saturation */
            mpq_set_si (d, INT64_MAX, 1) ;
            if (mpq_cmp (a, d) > 0 && st == SLIP_MPZ) break ;
            if (mpq_cmp (a, d) >= 0) { v_reach ("high") ; v_check (y == INT64_MAX, "saturates at the top") ; break ; }
            mpq_set_si (d, INT64_MIN, 1) ;
            if (mpq_cmp (a, d) < 0 && st == SLIP_MPZ) break ;
            if (mpq_cmp (a, d) <= 0) { v_reach ("low") ; v_check (y == INT64_MIN, "saturates at the bottom") ; break ; }
            mpq_set_si (c, y, 1) ;
            mpq_sub (d, a, c) ;
            mpq_set_si (c, 1, 1) ;
            v_check (mpq_cmp (d, c) < 0, "within one") ;
            mpq_neg (c, c) ;
            v_check (mpq_cmp (d, c) > 0, "within one") ;
            v_check (mpq_sgn (d) == 0 || (mpq_sgn (d) > 0) == (mpq_sgn (a) > 0), "rounds toward zero") ;
            break ;
        }
        case SLIP_FP64:
        {
            double y = t < 0 ? 0 : C->x.fp64 [t] ;
            if (st == SLIP_FP64)
            {
                double x = A->x.fp64 [k] ;
                v_check (y == x || (x != x && y != y), "doubles are copied") ;
            }
            else if (st == SLIP_MPFR) v_check (y == mpfr_get_d (A->x.mpfr [k], rnd), "rounded with the selected mode") ;
            else if (st == SLIP_INT64)
            {
                v_check (y == (double) A->x.int64 [k], "nearest double") ;
                if (A->x.int64 [k] >= -(1LL << 53) && A->x.int64 [k] <= (1LL << 53))
                {
                    mpq_set_d (c, y) ;
                    v_check (mpq_equal (a, c) != 0, "exact when representable") ;
                }
            }
            else v_check (y == mpq_get_d (a), "converted from the true value") ;
            break ;
        }
    }
    mpq_clear (a) ; mpq_clear (c) ; mpq_clear (d) ; mpfr_clear (f) ;
}

/* C10: type conversion, dense or sparse, value by value */
void h_cast (void)
{
    int st = v_choose ("stype", 5), dt = v_choose ("dtype", 5), nv = 1 + v_choose ("nv", 2), dk = v_choose ("dkind", 3) ;
    int rnd = dt == SLIP_MPFR || st == SLIP_MPFR ? v_choose ("round", 5) : 0 ;
    int prec = dt == SLIP_MPFR || st == SLIP_MPFR ? v_choose ("prec", 4) : 0 ;
    int sc = st == SLIP_MPZ ? v_choose ("scale", 2) : 0 ;
    int special = st == SLIP_FP64 && (dt == SLIP_INT64 || dt == SLIP_FP64) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->round = rnd ;
    o->prec = precs [prec] ;
    SLIP_matrix *A = NULL, *C = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_DENSE, st, nv, 1, nv, false, true, o)) ;
    for (int k = 0 ; k < nv ; k++)
    {
        if (st == SLIP_FP64) A->x.fp64 [k] = v_double (nm2 ("v", k, -1), special) ;
        else set_val (A, k, 1) ;
    }
    if (sc) pos_scale (A->scale, "scale") ;
    /* integers out of the int64 range: result not documented */
    OK (SLIP_matrix_copy (&C, dk, dt, A, o)) ;
    v_reach ("cast") ;
    valid (C, dk, dt, nv, 1) ;
    /* entry of C for each entry of A (zeros of a sparse result are not stored) */
    int64_t e = 0 ;
    for (int k = 0 ; k < nv ; k++)
    {
        int64_t t = -1 ;
        if (dk == SLIP_DENSE) t = k ;
        else if (e < count (C) && C->i [e] == k) t = e++ ;
        check_entry (A, k, C, t, rnd, precs [prec]) ;
    }
    if (dk != SLIP_DENSE) v_check (e == count (C), "entries in order, no others") ;
    SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&C, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* C09, C10: format and type conversion together, larger matrices; entry symk is symbolic */
void h_convert (void)
{
    int sk = v_choose ("skind", 3), dk = v_choose ("dkind", 3), st = v_choose ("stype", 5), dt = v_choose ("dtype", 5) ;
    int m = v_choose ("m", 30), n = v_choose ("n", 30), dens = v_choose ("dens", 100), seed = v_choose ("seed", 100) ;
    int rev = v_choose ("rev", 2), extra = v_choose ("extra", 3), dup = v_choose ("dup", 2), sc = st == SLIP_MPZ ? v_choose ("scale", 2) : 0 ;
    int rnd = v_choose ("round", 5), prec = v_choose ("prec", 4), symk = v_choose ("symk", 60) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->round = rnd ;
    o->prec = precs [prec] ;
    SLIP_matrix *A = NULL, *C = NULL ;
    /* positions: a fixed pseudo-random choice */
    static char has [900] ;
    unsigned h = seed * 2654435761u + 12345 ;
    int64_t cnt = 0 ;
    for (int t = 0 ; t < m*n ; t++)
    {
        h = h * 1103515245u + 12345u ;
        has [t] = (h >> 16) % 100 < (unsigned) dens ;
        cnt += has [t] ;
    }
    int hasdup = dup && sk == SLIP_TRIPLET && cnt > 2 ;
    OK (SLIP_matrix_allocate (&A, sk, st, m, n, sk == SLIP_DENSE ? m*n : cnt + extra + (hasdup ? 2 : 0), false, true, o)) ;
    if (sk == SLIP_DENSE)
    {
        for (int t = 0 ; t < m*n ; t++)
            if (has [t]) set_val (A, t, t == symk) ;
            else if (st == SLIP_MPFR) mpfr_set_si (A->x.mpfr [t], 0, MPFR_RNDN) ;   /* not a number otherwise */
    }
    else
    {
        cnt = 0 ;
        for (int j = 0 ; j < n ; j++)
        {
            if (sk == SLIP_CSC) A->p [j] = cnt ;
            for (int u = 0 ; u < m ; u++)
            {
                int i = rev && j % 2 ? m-1-u : u ;
                if (!has [i + m*j]) continue ;
                A->i [cnt] = i ;
                if (sk == SLIP_TRIPLET) A->j [cnt] = j ;
                cnt++ ;
            }
        }
        if (sk == SLIP_CSC) A->p [n] = cnt ;
        if (sk == SLIP_TRIPLET)
        {
            if (hasdup)
            {
                A->i [cnt] = A->i [1] ; A->j [cnt] = A->j [1] ; cnt++ ;
                A->i [cnt] = A->i [cnt/2] ; A->j [cnt] = A->j [cnt/2] ; cnt++ ;
            }
            A->nz = cnt ;
            if (rev) for (int64_t a = 0, b = cnt-1 ; a < b ; a += 2, b--)
            {
                int64_t t = A->i [a] ; A->i [a] = A->i [b] ; A->i [b] = t ;
                t = A->j [a] ; A->j [a] = A->j [b] ; A->j [b] = t ;
            }
        }
        for (int64_t k = 0 ; k < cnt ; k++) set_val (A, k, k == symk) ;
    }
    if (sc) mpq_set_ui (A->scale, 21, 10) ;
    snap_t s ;
    snap_take (&s, A) ;
    OK (SLIP_matrix_copy (&C, dk, dt, A, o)) ;
    v_reach ("converted") ;
    snap_same (&s, A, "source unchanged") ;
    snap_drop (&s) ;
    valid (C, dk, dt, m, n) ;
    if (!hasdup) v_check (SLIP_matrix_check (C, o) == SLIP_OK, "the result is a valid matrix") ;
    if (st == SLIP_MPZ && dt == SLIP_MPZ) v_check (mpq_equal (C->scale, A->scale) != 0, "scale of the integers is kept") ;
    static char used [1000] ;
    int64_t nA = count (A), nC = count (C), found = 0, a, b, c, d ;
    mpq_t q, r ;
    mpq_init (q) ; mpq_init (r) ;
    for (int64_t t = 0 ; t < nC ; t++) used [t] = 0 ;
    for (int64_t k = 0 ; k < nA ; k++)
    {
        int64_t e = -1 ;
        where (A, k, &a, &b) ;
        if (hasdup)
        {
            /* only the same type: positions stored once or more have the same values together */
            if (st != dt) continue ;
            int na = at (q, A, a, b), nc = at (r, C, a, b) ;
            if (dk != SLIP_DENSE) v_check (na == nc, "same entries are stored") ;
            if (dk != SLIP_DENSE || na == 1) v_check (mpq_equal (q, r) != 0, "same value at every position") ;
            continue ;
        }
        if (dk == SLIP_DENSE) e = a + m*b ;
        else for (int64_t t = 0 ; e < 0 && t < nC ; t++)
        {
            where (C, t, &c, &d) ;
            if (a == c && b == d) e = t ;
        }
        if (e >= 0) { v_check (!used [e], "an entry is stored once") ; used [e] = 1 ; found++ ; }
        check_entry (A, k, C, e, rnd, precs [prec]) ;
    }
    if (!hasdup) for (int64_t t = 0 ; t < nC ; t++)
    {
        if (used [t]) continue ;
        v_check (dk == SLIP_DENSE, "no other entries") ;
        val (q, C, t) ;
        v_check (mpq_sgn (q) == 0, "other positions are zero") ;
    }
    mpq_clear (q) ; mpq_clear (r) ;
    v_obs_int ("nz", nC) ; v_obs_int ("found", found) ;
    SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&C, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* C11: arrays of rationals or floating-point numbers become integers with a scale */
void h_expand (void)
{
    int st = v_choose ("stype", 3), nv = v_choose ("nv", 4) + 6 * v_choose ("more", 3), kind = v_choose ("kind", 3) ;
    static const int types [] = { SLIP_MPQ, SLIP_MPFR, SLIP_FP64 } ;
    int rnd = st ? v_choose ("round", 5) : 0 ;
    int prec = st ? v_choose ("prec", 4) : 0 ;
    int64_t sym = v_choose ("sym", 1 << 16) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->round = rnd ;
    o->prec = precs [prec] ;
    SLIP_matrix *A = mk (kind, types [st], nv, 1, (1 << nv) - 1, sym, 0, 0, 0, o), *C = NULL ;
    OK (SLIP_matrix_copy (&C, kind, SLIP_MPZ, A, o)) ;
    v_reach ("expanded") ;
    v_check (mpq_sgn (C->scale) > 0, "scale is positive") ;
    mpq_t a, c, d, e ;
    mpq_init (a) ; mpq_init (c) ; mpq_init (d) ; mpq_init (e) ;
    int64_t u = 0 ;
    for (int k = 0 ; k < nv ; k++)
    {
        val (a, A, k) ;
        if (st == 0)
        {
            val (c, C, k) ;
            v_check (mpq_equal (a, c) != 0, "integer / scale is the original rational") ;
            continue ;
        }
        /* |c - a| <= 2 unit + |a| 8 / 2^prec */
        val (c, C, k) ;
        mpq_sub (d, c, a) ;
        mpz_set_ui (mpq_numref (e), 8) ; mpz_ui_pow_ui (mpq_denref (e), 2, precs [prec]) ; mpq_canonicalize (e) ;
        mpq_mul (e, e, a) ;
        mpq_abs (e, e) ;
        mpq_abs (d, d) ;
        mpz_set_ui (mpq_numref (c), 2) ;
        if (st == 2) mpz_ui_pow_ui (mpq_denref (c), 10, 17) ; else mpz_ui_pow_ui (mpq_denref (c), 2, precs [prec]) ;
        mpq_canonicalize (c) ;
        mpq_add (e, e, c) ;
        v_check (mpq_cmp (d, e) <= 0, "integer / scale reproduces the input to the documented precision") ;
    }
    (void) u ;
    mpq_clear (a) ; mpq_clear (c) ; mpq_clear (d) ; mpq_clear (e) ;
    SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&C, o) ;
    SLIP_FREE (o) ;
    finish () ;
}
