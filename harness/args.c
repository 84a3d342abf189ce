/* C18: refused arguments, one routine at a time; every combination of defects */
#include "common.h"

static SLIP_matrix junk ;               /* stands for an uninitialised handle */
static SLIP_LU_analysis sjunk ;
static int64_t pjunk [2] ;

static int32_t any32 (const char *s) { return (int32_t) v_int (s, INT32_MIN, INT32_MAX) ; }
static SLIP_kind bad_kind (const char *s, int not) { int32_t k = any32 (s) ; v_assume (k != not) ; return (SLIP_kind) k ; }
static SLIP_type bad_type (const char *s, int not) { int32_t k = any32 (s) ; v_assume (k != not) ; return (SLIP_type) k ; }
static SLIP_kind no_kind (const char *s) { int32_t k = any32 (s) ; v_assume (k < SLIP_CSC || k > SLIP_DENSE) ; return (SLIP_kind) k ; }
static SLIP_type no_type (const char *s) { int32_t k = any32 (s) ; v_assume (k < SLIP_MPZ || k > SLIP_FP64) ; return (SLIP_type) k ; }

/* hand over a defective copy of the object's header.
   0 good, 1 NULL, 2 wrong kind, 3 wrong type, 4 other m, 5 other n */
static const SLIP_matrix *spoil (SLIP_matrix *c, const SLIP_matrix *A, int st, int kind, int type, const char *s)
{
    *c = *A ;
    if (st == 1) return NULL ;
    if (st == 2) c->kind = bad_kind (nm2 (s, 0, 0), kind) ;
    if (st == 3) c->type = bad_type (nm2 (s, 0, 1), type) ;
    if (st == 4) { c->m = v_int (nm2 (s, 0, 2), INT64_MIN, INT64_MAX) ; v_assume (c->m != A->m) ; }
    if (st == 5) { c->n = v_int (nm2 (s, 0, 3), INT64_MIN, INT64_MAX) ; v_assume (c->n != A->n) ; }
    return c ;
}

/* a small solved system */
static SLIP_matrix *A, *b, *L, *U, *rhos, *X ;
static SLIP_LU_analysis *S ;
static int64_t *pinv ;
static void setup (int n)
{
    start () ;
    A = mk_A (n, n == 1 ? 1 : 15, 0, "a") ; b = mk_b (n, 1, "b") ;
    mpz_t d ;
    mpz_init (d) ; det_A (d, A) ; v_assume (mpz_sgn (d) != 0) ; mpz_clear (d) ;
    OK (SLIP_LU_analyze (&S, A, NULL)) ;
    OK (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, NULL)) ;
}
static void teardown (void)
{
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&b, NULL) ; SLIP_matrix_free (&L, NULL) ; SLIP_matrix_free (&U, NULL) ;
    SLIP_matrix_free (&rhos, NULL) ; SLIP_LU_analysis_free (&S, NULL) ; SLIP_FREE (pinv) ;
    finish () ;
}
static void refused (SLIP_info r, int64_t before)
{
    v_check (r == SLIP_INCORRECT_INPUT, "incorrect input is reported") ;
    v_check (v_outstanding () == before, "nothing leaked") ;
    v_reach ("refused") ;
}

void h_backslash (void)
{
    SLIP_matrix ca, cb, *x = &junk ;
    int n = 1 + v_choose ("n", 2), sing = v_choose ("singular", 2) ;
    int sa = v_choose ("A", 6), sb = v_choose ("b", 5), sx = v_choose ("X", 2), st = v_choose ("type", 2) ;
    v_assume (sa || sb || sx || st) ;
    start () ;
    A = mk_A (n, n == 1 ? 1 : 15, 0, "a") ; b = mk_b (n, 1, "b") ;
    if (sing) for (int k = 0 ; k < n*n ; k++) mpz_set_si (A->x.mpz [k], 0) ;
    const SLIP_matrix *pa = spoil (&ca, A, sa, SLIP_CSC, SLIP_MPZ, "A"), *pb = spoil (&cb, b, sb, SLIP_DENSE, SLIP_MPZ, "B") ;
    SLIP_type t = SLIP_FP64 ;
    if (st) { t = bad_type ("type", SLIP_MPQ) ; v_assume (t != SLIP_FP64 && t != SLIP_MPFR) ; }
    int tk = v_shadow (&ca, sizeof (ca)), tb = v_shadow (&cb, sizeof (cb)) ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_backslash (sx ? NULL : &x, t, pa, pb, NULL) ;
    refused (r, before) ;
    v_check (sx || x == NULL, "no output") ;
    v_check (v_same (tk) && v_same (tb), "inputs untouched") ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&b, NULL) ;
    finish () ;
}

void h_analyze (void)
{
    SLIP_matrix ca ;
    SLIP_LU_analysis *s = &sjunk ;
    int n = 1 + v_choose ("n", 2), sa = v_choose ("A", 6), ss = v_choose ("S", 2), order = v_choose ("order", 3) ;
    v_assume ((sa || ss) && sa != 3) ;      /* any type of value will do */
    start () ;
    A = mk_A (n, n == 1 ? 1 : 15, 0, "a") ;
    SLIP_options *o = mk_opt () ;
    o->order = order ;
    const SLIP_matrix *pa = spoil (&ca, A, sa, SLIP_CSC, SLIP_MPZ, "A") ;
    int tk = v_shadow (&ca, sizeof (ca)) ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_LU_analyze (ss ? NULL : &s, pa, o) ;
    refused (r, before) ;
    v_check (ss || s == NULL, "no output") ;
    v_check (v_same (tk), "input untouched") ;
    SLIP_matrix_free (&A, NULL) ;
    SLIP_FREE (o) ;
    finish () ;
}

void h_factorize (void)
{
    SLIP_matrix ca, *l = &junk, *u = &junk, *h = &junk ;
    int64_t *p = pjunk ;
    int n = 1 + v_choose ("n", 2), sa = v_choose ("A", 7), ss = v_choose ("S", 2), nul = v_choose ("null", 16) ;
    v_assume (sa || ss || nul) ;
    setup (n) ;
    const SLIP_matrix *pa = spoil (&ca, A, sa == 6 ? 0 : sa, SLIP_CSC, SLIP_MPZ, "A") ;
    if (sa == 6) ca.p = NULL ;
    if (sa == 5) v_assume (ca.n < A->n) ;   /* p has n+1 entries */
    int tk = v_shadow (&ca, sizeof (ca)), ts = v_shadow (S, sizeof (*S)) ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_LU_factorize (nul & 1 ? NULL : &l, nul & 2 ? NULL : &u, nul & 4 ? NULL : &h, nul & 8 ? NULL : &p, pa, ss ? NULL : S, NULL) ;
    refused (r, before) ;
    if (!nul) v_check (!l && !u && !h && !p, "no output") ;
    v_check (v_same (tk) && v_same (ts), "inputs untouched") ;
    teardown () ;
}

void h_solve (void)
{
    SLIP_matrix ca, cb, cl, cu, cr, *x = &junk ;
    static const char *nm [] = { "A", "b", "L", "U", "rhos", "S", "pinv", "X" } ;
    static const int nst [] = { 6, 5, 6, 6, 6, 2, 2, 2 } ;
    int n = 1 + v_choose ("n", 2), st [8] = { 0, 0, 0, 0, 0, 0, 0, 0 }, cnt = 0 ;
    if (v_choose ("few", 2))
    {
        /* one or two defects */
        int i = v_choose ("first", 8), j = v_choose ("second", 9) ;
        v_assume (i < j) ;
        st [i] = 1 + v_choose ("st1", nst [i] - 1) ;
        if (j < 8) st [j] = 1 + v_choose ("st2", nst [j] - 1) ;
    }
    else
    {
        for (int k = 0 ; k < 8 ; k++) { st [k] = v_choose (nm [k], nst [k]) ; cnt += st [k] != 0 ; }
        v_assume (cnt > 0) ;
    }
    int sa = st [0], sb = st [1], sl = st [2], su = st [3], sr = st [4], ss = st [5], sp = st [6], sx = st [7] ;
    setup (n) ;
    const SLIP_matrix *pa = spoil (&ca, A, sa, SLIP_CSC, SLIP_MPZ, "A"), *pb = spoil (&cb, b, sb, SLIP_DENSE, SLIP_MPZ, "B") ;
    const SLIP_matrix *pl = spoil (&cl, L, sl, SLIP_CSC, SLIP_MPZ, "L"), *pu = spoil (&cu, U, su, SLIP_CSC, SLIP_MPZ, "U") ;
    const SLIP_matrix *pr = spoil (&cr, rhos, sr, SLIP_DENSE, SLIP_MPZ, "R") ;
    int t [5] = { v_shadow (&ca, sizeof (ca)), v_shadow (&cb, sizeof (cb)), v_shadow (&cl, sizeof (cl)), v_shadow (&cu, sizeof (cu)), v_shadow (&cr, sizeof (cr)) } ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_LU_solve (sx ? NULL : &x, pb, pa, pl, pu, pr, ss ? NULL : S, sp ? NULL : pinv, NULL) ;
    refused (r, before) ;
    v_check (sx || x == NULL, "no output") ;
    for (int k = 0 ; k < 5 ; k++) v_check (v_same (t [k]), "inputs untouched") ;
    teardown () ;
}

/* copy: 0 good 1 NULL 2 no such kind 3 no such type 4 negative m 5 negative n
   6 no column pointers */
void h_copy (void)
{
    SLIP_matrix ca, *c = &junk ;
    int kind = v_choose ("kind", 3), type = v_choose ("from", 5), sa = v_choose ("A", 7), sc = v_choose ("C", 2), sk = v_choose ("ckind", 2), st = v_choose ("ctype", 2) ;
    v_assume (sa || sc || sk || st) ;
    v_assume (sa != 6 || kind == SLIP_CSC) ;
    start () ;
    OK (SLIP_matrix_allocate (&A, kind, type, 2, 2, 2, false, true, NULL)) ;
    ca = *A ;
    if (sa == 2) ca.kind = no_kind ("ka") ;
    if (sa == 3) ca.type = no_type ("ta") ;
    if (sa == 4) ca.m = v_int ("m", INT64_MIN, -1) ;
    if (sa == 5) ca.n = v_int ("nn", INT64_MIN, -1) ;
    if (sa == 6) ca.p = NULL ;
    SLIP_kind ck = sk ? no_kind ("kc") : (SLIP_kind) v_choose ("kck", 3) ;
    SLIP_type ct = st ? no_type ("tc") : (SLIP_type) v_choose ("tct", 5) ;
    int tk = v_shadow (&ca, sizeof (ca)) ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_matrix_copy (sc ? NULL : &c, ck, ct, sa == 1 ? NULL : &ca, NULL) ;
    refused (r, before) ;
    v_check (sc || c == NULL, "no output") ;
    v_check (v_same (tk), "input untouched") ;
    SLIP_matrix_free (&A, NULL) ;
    finish () ;
}

void h_allocate (void)
{
    SLIP_matrix *a = &junk ;
    int h = v_choose ("handle", 2) ;
    start () ;
    int32_t kind = any32 ("kind"), type = any32 ("type") ;
    int64_t m = v_int ("m", INT64_MIN, INT64_MAX), n = v_int ("n", INT64_MIN, INT64_MAX), z = v_int ("nzmax", INT64_MIN, INT64_MAX) ;
    if (!h) v_assume (m < 0 || n < 0 || kind < SLIP_CSC || kind > SLIP_DENSE || type < SLIP_MPZ || type > SLIP_FP64) ;
    int sh = v_choose ("shallow", 2), in = v_choose ("init", 2) ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_matrix_allocate (h ? NULL : &a, (SLIP_kind) kind, (SLIP_type) type, m, n, z, sh, in, NULL) ;
    refused (r, before) ;
    v_check (h || a == NULL, "no output") ;
    finish () ;
}

void h_query (void)
{
    SLIP_matrix ca ;
    int what = v_choose ("what", 4), kind = v_choose ("kind", 3), type = v_choose ("type", 5), sa = v_choose ("A", 7) ;
    start () ;
    OK (SLIP_matrix_allocate (&A, kind, type, 2, 2, 2, false, true, NULL)) ;
    ca = *A ;
    int64_t before = v_outstanding () ;
    if (what < 2)
    {
        v_assume (sa && (sa != 6 || kind == SLIP_CSC)) ;
        if (what == 0) v_assume (sa == 1 || sa == 2 || sa == 6 || (sa == 5 && kind != SLIP_TRIPLET) || (sa == 4 && kind == SLIP_DENSE)) ;
        if (sa == 2) ca.kind = no_kind ("ka") ;
        if (sa == 3) ca.type = no_type ("ta") ;
        if (sa == 4) ca.m = v_int ("m", INT64_MIN, -1) ;
        if (sa == 5) ca.n = v_int ("nn", INT64_MIN, -1) ;
        if (sa == 6) ca.p = NULL ;
        const SLIP_matrix *pa = sa == 1 ? NULL : &ca ;
        if (what == 0) v_check (SLIP_matrix_nnz (pa, NULL) == -1, "no count") ;
        else v_check (SLIP_matrix_check (pa, NULL) == SLIP_INCORRECT_INPUT, "incorrect input is reported") ;
        v_reach ("query") ;
    }
    else
    {
        /* nothing to free is not an error */
        SLIP_matrix *z = NULL ;
        SLIP_LU_analysis *zs = NULL ;
        if (what == 2) v_check (SLIP_matrix_free (sa & 1 ? NULL : &z, NULL) == SLIP_OK && z == NULL, "nothing to free") ;
        else v_check (SLIP_LU_analysis_free (sa & 1 ? NULL : &zs, NULL) == SLIP_OK && zs == NULL, "nothing to free") ;
        SLIP_free (NULL) ;
        v_reach ("free") ;
    }
    v_check (v_outstanding () == before, "nothing leaked") ;
    SLIP_matrix_free (&A, NULL) ;
    finish () ;
}
