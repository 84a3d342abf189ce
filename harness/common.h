/* Shared builders and oracles.  Everything here runs in both back ends. */
#ifndef COMMON_H
#define COMMON_H
#include "v.h"
#include "SLIP_LU.h"

#define OK(e) do { SLIP_info ok_ = (e) ; if (ok_ != SLIP_OK) v_fail ("unexpected failure: " #e) ; } while (0)

static char nmbuf [64] ;
static const char *nm2 (const char *p, int i, int j)
{
    int k = 0 ;
    while (p [k]) { nmbuf [k] = p [k] ; k++ ; }
    if (i >= 0) nmbuf [k++] = '0' + i ;
    if (j >= 0) { nmbuf [k++] = '_' ; nmbuf [k++] = '0' + j ; }
    nmbuf [k] = 0 ;
    return nmbuf ;
}

/* CSC mpz n-by-n matrix; pattern bit i+n*j set: entry (i,j) is stored.
   nz: stored entries are assumed nonzero */
static SLIP_matrix *mk_A (int n, int64_t pat, int nz, const char *p)
{
    SLIP_matrix *A = NULL ;
    int64_t cnt = 0 ;
    for (int t = 0 ; t < n*n ; t++) if (pat >> t & 1) cnt++ ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_MPZ, n, n, cnt, false, true, NULL)) ;
    cnt = 0 ;
    for (int j = 0 ; j < n ; j++)
    {
        A->p [j] = cnt ;
        for (int i = 0 ; i < n ; i++)
        {
            if (!(pat >> (i+n*j) & 1)) continue ;
            A->i [cnt] = i ;
            v_mpz (A->x.mpz [cnt], nm2 (p, i, j)) ;
            if (nz) v_assume (mpz_sgn (A->x.mpz [cnt]) != 0) ;
            cnt++ ;
        }
    }
    A->p [n] = cnt ;
    return A ;
}

/* dense m-by-nrhs mpz matrix */
static SLIP_matrix *mk_b (int m, int nrhs, const char *p)
{
    SLIP_matrix *b = NULL ;
    OK (SLIP_matrix_allocate (&b, SLIP_DENSE, SLIP_MPZ, m, nrhs, m*nrhs, false, true, NULL)) ;
    for (int j = 0 ; j < nrhs ; j++)
        for (int i = 0 ; i < m ; i++)
            v_mpz (b->x.mpz [i+m*j], nm2 (p, i, j)) ;
    return b ;
}

/* as mk_b; rows outside the mask hold fixed nonzero integers */
static SLIP_matrix *mk_bm (int m, int nrhs, int mask, const char *p)
{
    static const int64_t tab [] = { 4, -3, 7, 0, 5, -9, 2, 11 } ;
    SLIP_matrix *b = NULL ;
    OK (SLIP_matrix_allocate (&b, SLIP_DENSE, SLIP_MPZ, m, nrhs, m*nrhs, false, true, NULL)) ;
    for (int j = 0 ; j < nrhs ; j++)
        for (int i = 0 ; i < m ; i++)
            if (mask >> i % 20 & 1) v_mpz (b->x.mpz [i+m*j], nm2 (p, i, j)) ;
            else mpz_set_si (b->x.mpz [i+m*j], j == 2 ? 0 : tab [(i + 3*j) % 8]) ;
    return b ;
}

/* z = entry (i,j) of a CSC mpz matrix (sum of stored entries) */
static void get_A (mpz_ptr z, const SLIP_matrix *A, int64_t i, int64_t j)
{
    mpz_set_si (z, 0) ;
    for (int64_t t = A->p [j] ; t < A->p [j+1] ; t++)
        if (A->i [t] == i) mpz_add (z, z, A->x.mpz [t]) ;
}

/* det of an n-by-n CSC mpz matrix, n <= 4 */
static void det_rec (mpz_ptr d, const SLIP_matrix *A, int n, int row, int used)
{
    mpz_t e, s ;
    mpz_init (e) ; mpz_init (s) ;
    if (row == n) { mpz_set_si (d, 1) ; }
    else
    {
        int sign = 1 ;
        mpz_set_si (d, 0) ;
        for (int j = 0 ; j < n ; j++)
        {
            if (used >> j & 1) continue ;
            int st = 0 ;
            for (int64_t t = A->p [j] ; t < A->p [j+1] ; t++) if (A->i [t] == row) st = 1 ;
            if (st)
            {
                det_rec (s, A, n, row+1, used | 1 << j) ;
                get_A (e, A, row, j) ;
                mpz_mul (s, s, e) ;
                if (sign > 0) mpz_add (d, d, s) ; else mpz_sub (d, d, s) ;
            }
            sign = -sign ;
        }
    }
    mpz_clear (e) ; mpz_clear (s) ;
}
/* fraction-free elimination, for larger matrices */
static void det_bareiss (mpz_ptr d, const SLIP_matrix *A)
{
    int n = (int) A->n, sign = 1 ;
    mpz_t *M = malloc (n * n * sizeof (mpz_t)), t, prev ;
    mpz_init (t) ; mpz_init (prev) ;
    mpz_set_si (prev, 1) ;
    for (int k = 0 ; k < n*n ; k++) mpz_init (M [k]) ;
    for (int j = 0 ; j < n ; j++)
        for (int64_t q = A->p [j] ; q < A->p [j+1] ; q++) mpz_add (M [A->i [q] + n*j], M [A->i [q] + n*j], A->x.mpz [q]) ;
    mpz_set_si (d, 0) ;
    int k ;
    for (k = 0 ; k < n ; k++)
    {
        int p = k ;
        while (p < n && mpz_sgn (M [p + n*k]) == 0) p++ ;
        if (p == n) break ;
        if (p != k) { sign = -sign ; for (int j = k ; j < n ; j++) mpz_swap (M [p + n*j], M [k + n*j]) ; }
        for (int i = k+1 ; i < n ; i++)
        {
            int z = mpz_sgn (M [i + n*k]) == 0 ;
            for (int j = k+1 ; j < n ; j++)
            {
                mpz_mul (M [i + n*j], M [i + n*j], M [k + n*k]) ;
                if (!z) { mpz_mul (t, M [i + n*k], M [k + n*j]) ; mpz_sub (M [i + n*j], M [i + n*j], t) ; }
                if (k) mpz_divexact (M [i + n*j], M [i + n*j], prev) ;
            }
        }
        mpz_set (prev, M [k + n*k]) ;
    }
    if (k == n) { mpz_set (d, prev) ; if (sign < 0) mpz_neg (d, d) ; }
    for (int q = 0 ; q < n*n ; q++) mpz_clear (M [q]) ;
    free (M) ;
    mpz_clear (t) ; mpz_clear (prev) ;
}
static void det_A (mpz_ptr d, const SLIP_matrix *A)
{
    if (A->n > 5) det_bareiss (d, A) ;
    else det_rec (d, A, (int) A->n, 0, 0) ;
}

/* check A*X = B with A, B scaled integer matrices and X rational:
   sum_j A(i,j) X(j,k) * bscale = B(i,k) * ascale */
static void check_solution (const SLIP_matrix *A, const SLIP_matrix *b, const SLIP_matrix *X, const char *msg)
{
    mpq_t t, s ;
    int64_t n = A->n ;
    v_check (X != NULL, "solution object returned") ;
    v_check (X->kind == SLIP_DENSE && X->type == SLIP_MPQ && X->m == n && X->n == b->n, "shape of X") ;
    mpq_init (t) ; mpq_init (s) ;
    for (int64_t k = 0 ; k < b->n ; k++)
    {
        for (int64_t i = 0 ; i < n ; i++)
        {
            mpq_set_ui (s, 0, 1) ;
            for (int64_t j = 0 ; j < n ; j++)
            {
                for (int64_t q = A->p [j] ; q < A->p [j+1] ; q++)
                {
                    if (A->i [q] != i) continue ;
                    mpq_set_z (t, A->x.mpz [q]) ;
                    mpq_mul (t, t, X->x.mpq [j + n*k]) ;
                    mpq_add (s, s, t) ;
                }
            }
            mpq_mul (s, s, b->scale) ;
            mpq_set_z (t, b->x.mpz [i + n*k]) ;
            mpq_mul (t, t, A->scale) ;
            v_check (mpq_equal (s, t), msg) ;
        }
    }
    mpq_clear (t) ; mpq_clear (s) ;
}

/* solve without the driver: analyze, factorize, solve */
static SLIP_info fsolve (SLIP_matrix **X, const SLIP_matrix *A, const SLIP_matrix *b, const SLIP_options *o)
{
    SLIP_LU_analysis *S = NULL ;
    SLIP_matrix *L = NULL, *U = NULL, *rhos = NULL ;
    int64_t *pinv = NULL ;
    SLIP_info r = SLIP_LU_analyze (&S, A, o) ;
    if (r == SLIP_OK) r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o) ;
    if (r == SLIP_OK) r = SLIP_LU_solve (X, b, A, L, U, rhos, S, pinv, o) ;
    SLIP_LU_analysis_free (&S, NULL) ;
    SLIP_matrix_free (&L, NULL) ;
    SLIP_matrix_free (&U, NULL) ;
    SLIP_matrix_free (&rhos, NULL) ;
    SLIP_FREE (pinv) ;
    return r ;
}

/* n-by-n CSC matrix whose stored entries are symbolic where bit i+n*j of sym is
   set and small fixed integers elsewhere */
static SLIP_matrix *mk_mixed (int n, int64_t pat, int64_t sym, int nz, const char *p)
{
    static const int64_t tab [] = { 1, -1, 2, 1, -1, 1, 3, -1, 1, -2, 1, 1, -1, 2, 1, -1 } ;
    SLIP_matrix *A = NULL ;
    int64_t cnt = 0 ;
    for (int t = 0 ; t < n*n ; t++) if (pat >> t & 1) cnt++ ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_MPZ, n, n, cnt, false, true, NULL)) ;
    cnt = 0 ;
    for (int j = 0 ; j < n ; j++)
    {
        A->p [j] = cnt ;
        for (int i = 0 ; i < n ; i++)
        {
            int t = i+n*j ;
            if (!(pat >> t & 1)) continue ;
            A->i [cnt] = i ;
            if (sym >> t & 1)
            {
                v_mpz (A->x.mpz [cnt], nm2 (p, i, j)) ;
                if (nz) v_assume (mpz_sgn (A->x.mpz [cnt]) != 0) ;
            }
            else mpz_set_si (A->x.mpz [cnt], tab [(7*i + 3*j + i*j) % 16]) ;
            cnt++ ;
        }
    }
    A->p [n] = cnt ;
    return A ;
}

/* larger n-by-n CSC matrix of a given shape: fixed integers except nsym symbolic entries */
static uint64_t mix (uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t h = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull + 0x27D4EB2F165667C5ull ;
    h ^= h >> 29 ; h *= 0xBF58476D1CE4E5B9ull ; h ^= h >> 32 ;
    return h ;
}
static int big_in (int shape, int seed, int n, int i, int j)
{
    switch (shape)
    {
        case 0: return i == j || i == 0 || j == 0 ;
        case 1: return (i - j <= 1 && j - i <= 1) || (i == 0 && j == n-1) ;
        case 2: return i == (j + 1) % n || i == (j + 3) % n || ((i + 2*j) % 5 == 0 && i != j) ;
        case 3: return i == (3*j + 1 + seed) % n || (i + 1) % n == j || mix (i, j, seed) % 100 < 22 ;
        case 4: return i/3 == j/3 || (i < j && mix (i, j, seed) % 4 == 0) ;
        case 5: return 1 ;
        case 6: return i == j || mix (i, j, seed) % 100 < 25 ;
        case 8: return i + j == n-1 || i + j == n || (i == 0 && j == n/2) ;
        case 9: return i/2 == j/2 || j == i + 7 ;
        case 10: return (2*i + j) % n == 1 || i == j + 2 || (n % 2 == 0 && i == j) ;
        default: return i == n-1 || j == n-1 || i == j || i + 1 == j ;
    }
}
static SLIP_matrix *mk_big (int n, int shape, int seed, int nsym, int nz, const char *p)
{
    SLIP_matrix *A = NULL ;
    int64_t cnt = 0, t = 0, at [4] ;
    for (int k = 0 ; k < n*n ; k++) cnt += big_in (shape, seed, n, k % n, k / n) ;
    for (int k = 0 ; k < nsym && k < 4 ; k++) at [k] = mix (seed, k, n) % cnt ;
    /* odd seeds: unused room behind the entries, and a count in the field which this format ignores */
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_MPZ, n, n, cnt + 3 * (seed % 2), false, true, NULL)) ;
    if (seed % 2) A->nz = cnt + 2 ;
    for (int j = 0 ; j < n ; j++)
    {
        A->p [j] = t ;
        for (int i = 0 ; i < n ; i++)
        {
            if (!big_in (shape, seed, n, i, j)) continue ;
            int sy = 0 ;
            for (int k = 0 ; k < nsym && k < 4 ; k++) if (at [k] == t) sy = 1 ;
            A->i [t] = i ;
            if (sy)
            {
                v_mpz (A->x.mpz [t], nm2 (p, i, j)) ;
                if (nz) v_assume (mpz_sgn (A->x.mpz [t]) != 0) ;
            }
            else
            {
                int64_t v = (int64_t) (mix (i + 31, j + 17, seed) % 9) - 4 ;
                if (v == 0) v = 5 ;
                mpz_set_si (A->x.mpz [t], v) ;
                if (seed % 3 == 1) { mpz_mul_si (A->x.mpz [t], A->x.mpz [t], 1000003) ; mpz_add_ui (A->x.mpz [t], A->x.mpz [t], i + 3*j) ; }
                if (seed % 3 == 2 && (i + j) % 2) { mpz_mul_2exp (A->x.mpz [t], A->x.mpz [t], 70) ; mpz_add_ui (A->x.mpz [t], A->x.mpz [t], 1 + i*j) ; }
            }
            t++ ;
        }
    }
    A->p [n] = t ;
    return A ;
}

/* reverse the order of the entries in every column */
static void jumble (SLIP_matrix *A)
{
    for (int64_t j = 0 ; j < A->n ; j++)
    {
        int64_t a = A->p [j], b = A->p [j+1] - 1 ;
        for ( ; a < b ; a++, b--)
        {
            int64_t t = A->i [a] ; A->i [a] = A->i [b] ; A->i [b] = t ;
            mpz_swap (A->x.mpz [a], A->x.mpz [b]) ;
        }
    }
}

static void pos_scale (mpq_ptr q, const char *name)
{
    v_mpq (q, name) ;
    v_assume (mpq_sgn (q) > 0) ;
}

/* a value copy of a matrix object (mpz or mpq values), to detect modification */
typedef struct { SLIP_matrix s ; int64_t *p, *i, *j ; mpz_t *z ; mpq_t *q ; mpq_t scale ; int64_t nz ; } snap_t ;
static int64_t *icopy (const int64_t *a, int64_t n)
{
    if (a == NULL) return NULL ;
    int64_t *c = malloc ((n+1) * sizeof (int64_t)) ;
    for (int64_t k = 0 ; k < n ; k++) c [k] = a [k] ;
    return c ;
}
static void snap_take (snap_t *t, const SLIP_matrix *A)
{
    int64_t nz = A->kind == SLIP_CSC ? A->p [A->n] : A->kind == SLIP_TRIPLET ? A->nz : A->m * A->n ;
    t->s = *A ; t->nz = nz ;
    t->p = icopy (A->p, A->n+1) ; t->i = icopy (A->i, nz) ; t->j = icopy (A->j, nz) ;
    t->z = NULL ; t->q = NULL ;
    if (A->type == SLIP_MPZ)
    {
        t->z = malloc ((nz+1) * sizeof (mpz_t)) ;
        for (int64_t k = 0 ; k < nz ; k++) mpz_init_set (t->z [k], A->x.mpz [k]) ;
    }
    if (A->type == SLIP_MPQ)
    {
        t->q = malloc ((nz+1) * sizeof (mpq_t)) ;
        for (int64_t k = 0 ; k < nz ; k++) { mpq_init (t->q [k]) ; mpq_set (t->q [k], A->x.mpq [k]) ; }
    }
    mpq_init (t->scale) ; mpq_set (t->scale, A->scale) ;
}
static void snap_same (snap_t *t, const SLIP_matrix *A, const char *msg)
{
    v_check (A->m == t->s.m && A->n == t->s.n && A->nzmax == t->s.nzmax && A->nz == t->s.nz && A->kind == t->s.kind
        && A->type == t->s.type && A->p == t->s.p && A->i == t->s.i && A->j == t->s.j && A->x.mpz == t->s.x.mpz
        && A->p_shallow == t->s.p_shallow && A->i_shallow == t->s.i_shallow && A->j_shallow == t->s.j_shallow
        && A->x_shallow == t->s.x_shallow, msg) ;
    if (t->p) for (int64_t k = 0 ; k <= t->s.n ; k++) v_check (A->p [k] == t->p [k], msg) ;
    for (int64_t k = 0 ; k < t->nz ; k++)
    {
        if (t->i) v_check (A->i [k] == t->i [k], msg) ;
        if (t->j) v_check (A->j [k] == t->j [k], msg) ;
        if (t->z) v_check (mpz_cmp (A->x.mpz [k], t->z [k]) == 0, msg) ;
        if (t->q) v_check (mpq_equal (A->x.mpq [k], t->q [k]) != 0, msg) ;
    }
    v_check (mpq_equal (A->scale, t->scale) != 0, msg) ;
}
static void snap_drop (snap_t *t)
{
    free (t->p) ; free (t->i) ; free (t->j) ;
    for (int64_t k = 0 ; k < t->nz ; k++) { if (t->z) mpz_clear (t->z [k]) ; if (t->q) mpq_clear (t->q [k]) ; }
    free (t->z) ; free (t->q) ;
    mpq_clear (t->scale) ;
}

static void same_X (const SLIP_matrix *X, const SLIP_matrix *Y, const char *msg)
{
    v_check (X != NULL && Y != NULL && X->kind == Y->kind && X->type == Y->type && X->m == Y->m && X->n == Y->n, msg) ;
    for (int64_t k = 0 ; k < X->m * X->n ; k++) v_check (mpq_equal (X->x.mpq [k], Y->x.mpq [k]) != 0, msg) ;
}

static void is_perm (const int64_t *q, int64_t n, const char *msg)
{
    int seen [80] ;
    for (int64_t k = 0 ; k < n ; k++) seen [k] = 0 ;
    for (int64_t k = 0 ; k < n ; k++)
    {
        v_check (q [k] >= 0 && q [k] < n, msg) ;
        int64_t t = v_fork (q [k]) ;
        v_check (!seen [t], msg) ;
        seen [t] = 1 ;
    }
}

/* a pattern drawn from a fixed sequence, plus nsym entries at symbolic rows; returns the number of entries (at most m*n + nsym).
   kind 0 uniform; 1 groups of three equal rows and columns; 2 row 0 full, every second to fourth column has only row 0;
   3 a grid plus a few entries; 4 an arrow of width two plus a few entries; 5 three rows full, some columns only these or empty */
static int rnd_hash (int seed, int a, int b, int k)
{
    uint64_t h = (uint64_t) seed * 0x9E3779B97F4A7C15ULL + (uint64_t) a * 0xBF58476D1CE4E5B9ULL + (uint64_t) b * 0x94D049BB133111EBULL ;
    h ^= h >> 31 ; h *= 0xD6E8FEB86659FD93ULL ; h ^= h >> 32 ;
    return (int) (h % (uint64_t) k) ;
}
static int64_t rnd_pattern (int64_t *p, int64_t *i, int m, int n, int kind, int seed, int dens, int nsym)
{
    int64_t c = 0, x [2] ;
    for (int k = 0 ; k < nsym ; k++) x [k] = v_int (nm2 ("x", k, -1), 0, m-1) ;
    for (int j = 0 ; j < n ; j++)
    {
        p [j] = c ;
        for (int r = 0 ; r < m ; r++)
        {
            int in, h = rnd_hash (seed, r, j, 100) < dens ;
            switch (kind)
            {
                case 1: in = r == j || rnd_hash (seed, r/3, j/3, 100) < dens ; break ;
                case 2: in = r == 0 || (j % (2 + seed % 3) && h) ; break ;
                case 3: in = r == j || r == j+1 || r == j+5 || j == r+1 || j == r+5 || h ; break ;
                case 4: in = r == j || r < 2 || j >= n-2 || h ; break ;
                case 5: in = j % 5 == 1 ? 0 : r < 3 ? 1 : j % 3 ? h : 0 ; break ;
                default: in = h ; break ;
            }
            if (in) i [c++] = r ;
        }
        for (int k = 0 ; k < nsym ; k++) if (j == (k ? n/2 : n/4)) i [c++] = x [k] ;
    }
    p [n] = c ;
    return c ;
}

static SLIP_options *mk_opt (void)
{
    SLIP_options *o = SLIP_create_default_options () ;
    v_check (o != NULL, "options") ;
    return o ;
}

static void start (void) { OK (SLIP_initialize ()) ; }
static void finish (void)
{
    OK (SLIP_finalize ()) ;
    v_check (v_outstanding () == 0, "leak: blocks still allocated after finalize") ;
}
#endif
