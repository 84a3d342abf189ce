/* C15: one memory request, or every request from some point on, fails.  An
   operation may do without a request (a block that need not shrink): then it
   must succeed with the right result */
#include "common.h"

#define BROKEN_Z(x) ((x)->_mp_d == NULL)
static void clear_z (mpz_ptr x) { if (!BROKEN_Z (x)) mpz_clear (x) ; }
static void clear_q (mpq_ptr x) { clear_z (mpq_numref (x)) ; clear_z (mpq_denref (x)) ; }
static void clear_f (mpfr_ptr x) { if (x->_mpfr_d != NULL) mpfr_clear (x) ; }
static int broken_q (mpq_ptr x) { return BROKEN_Z (mpq_numref (x)) || BROKEN_Z (mpq_denref (x)) ; }

/* a number that fills several limbs in the real library */
static void big_z (mpz_ptr z, const char *s, int big)
{
    v_mpz (z, s) ;
    if (big) { mpz_mul_2exp (z, z, 192) ; }
}

static int mode ;
#define TRY(call) do { if (mode) v_fault_on (mode) ; r = call ; if (mode) v_fault_off () ; fired = v_fault_fired () ; \
    if (fired) v_reach (r == SLIP_OK ? "dispensable" : "no-memory") ; \
    v_check (r == SLIP_OK || (fired && r == SLIP_OUT_OF_MEMORY), "a failed request is reported") ; \
    fired = r != SLIP_OK ; } while (0)

/* integer wrappers: x = y op z; the destination may be an operand */
static SLIP_info z_op (int op, mpz_ptr x, mpz_ptr y, mpz_ptr z, mpq_ptr q, mpfr_ptr f, int64_t s)
{
    switch (op)
    {
        case 0: return SLIP_mpz_set (x, y) ;
        case 1: return SLIP_mpz_set_ui (x, (uint64_t) s) ;
        case 2: return SLIP_mpz_set_si (x, s) ;
        case 3: return SLIP_mpz_set_q (x, q) ;
        case 4: return SLIP_mpz_mul (x, y, z) ;
        case 5: return SLIP_mpz_submul (x, y, z) ;
        case 6: return SLIP_mpz_divexact (x, y, z) ;
        case 7: return SLIP_mpz_gcd (x, y, z) ;
        case 8: return SLIP_mpz_lcm (x, y, z) ;
        case 9: return SLIP_mpz_abs (x, y) ;
        case 10: return SLIP_mpq_get_den (x, q) ;
        default: return SLIP_mpfr_get_z (x, f, MPFR_RNDN) ;
    }
}
#define NZOP 12
void h_z (void)
{
    int op = v_choose ("op", NZOP), al = v_choose ("alias", 3), fresh = v_choose ("fresh", 2), big = v_choose ("big", 2), fired ;
    mode = v_choose ("mode", 3) ;
    start () ;
    v_grow (big) ;
    mpz_t v [3], a [3], want ;
    mpq_t q ;
    mpfr_t f ;
    SLIP_info r ;
    int64_t s = v_int ("s", INT64_MIN, INT64_MAX) ;
    for (int k = 0 ; k < 3 ; k++) { mpz_init (v [k]) ; mpz_init (a [k]) ; }
    mpz_init (want) ; mpq_init (q) ; mpfr_init2 (f, 53) ;
    if (!fresh || al) v_mpz (v [0], "x") ;
    big_z (v [1], "y", big) ; big_z (v [2], "z", big) ;
    if (op == 6) { v_assume (mpz_sgn (v [2]) != 0) ; mpz_mul (v [1], v [1], v [2]) ; }
    if (op == 3 || op == 10) v_mpq (q, "q") ;
    if (op == 11) v_mpfr (f, "f") ;
    if (al == 1) mpz_set (v [0], v [1]) ;
    if (al == 2) mpz_set (v [0], v [2]) ;
    for (int k = 0 ; k < 3 ; k++) mpz_set (a [k], v [k]) ;
    mpz_ptr x = v [0], y = al == 1 ? v [0] : v [1], z = al == 2 ? v [0] : v [2] ;
    /* the value it should have, without failures */
    mpz_set (want, v [0]) ;
    if (al == 0) OK (z_op (op, want, y, z, q, f, s)) ;
    else { if (al == 1) OK (z_op (op, want, want, z, q, f, s)) ; else OK (z_op (op, want, y, want, q, f, s)) ; }
    TRY (z_op (op, x, y, z, q, f, s)) ;
    for (int k = 1 ; k < 3 ; k++) v_check (mpz_cmp (v [k], a [k]) == 0, "operand not modified") ;
    if (fired)
    {
        if (BROKEN_Z (x)) mpz_init (x) ;
        mpz_set (x, a [0]) ;
        OK (z_op (op, x, y, z, q, f, s)) ;
    }
    v_reach ("ok") ;
    v_check (mpz_cmp (x, want) == 0, "the result") ;
    for (int k = 0 ; k < 3 ; k++) { clear_z (v [k]) ; mpz_clear (a [k]) ; }
    mpz_clear (want) ; mpq_clear (q) ; mpfr_clear (f) ;
    finish () ;
}

static SLIP_info q_op (int op, mpq_ptr x, mpq_ptr y, mpq_ptr z, mpz_ptr w, mpfr_ptr f, int64_t s, double d)
{
    switch (op)
    {
        case 0: return SLIP_mpq_set (x, y) ;
        case 1: return SLIP_mpq_set_z (x, w) ;
        case 2: return SLIP_mpq_set_d (x, d) ;
        case 3: return SLIP_mpq_set_ui (x, (uint64_t) s, 3) ;
        case 4: return SLIP_mpq_set_si (x, s, 3) ;
        case 5: return SLIP_mpq_set_num (x, w) ;
        case 6: return SLIP_mpq_set_den (x, w) ;
        case 7: return SLIP_mpq_abs (x, y) ;
        case 8: return SLIP_mpq_add (x, y, z) ;
        case 9: return SLIP_mpq_mul (x, y, z) ;
        case 10: return SLIP_mpq_div (x, y, z) ;
        default: return SLIP_mpfr_get_q (x, f, MPFR_RNDN) ;
    }
}
static void big_q (mpq_ptr q, const char *s, int big)
{
    v_mpq (q, s) ;
    if (big)
    {
        mpq_t t ;
        mpq_init (t) ; mpq_set_si (t, 1, 3) ;
        mpz_set_si (mpq_numref (t), 1) ; mpz_mul_2exp (mpq_numref (t), mpq_numref (t), 192) ;
        mpq_mul (q, q, t) ;
        mpq_clear (t) ;
    }
}
void h_q (void)
{
    int op = v_choose ("op", 12), al = v_choose ("alias", 3), fresh = v_choose ("fresh", 2), big = v_choose ("big", 2), fired ;
    mode = v_choose ("mode", 3) ;
    start () ;
    v_grow (big) ;
    mpq_t v [3], a [3], want ;
    mpz_t w ;
    mpfr_t f ;
    SLIP_info r ;
    int64_t s = v_int ("s", INT64_MIN, INT64_MAX) ;
    double d = op == 2 ? v_double ("d", 0) : 0 ;
    for (int k = 0 ; k < 3 ; k++) { mpq_init (v [k]) ; mpq_init (a [k]) ; }
    mpq_init (want) ; mpz_init (w) ; mpfr_init2 (f, 53) ;
    if (op == 1 || op == 5 || op == 6) { big_z (w, "w", big) ; v_assume (mpz_sgn (w) > 0) ; }
    if (op == 11) v_mpfr (f, "f") ;
    if (!fresh || al) v_mpq (v [0], "x") ;
    if (op == 0 || op >= 7) big_q (v [1], "y", big) ;
    if (op >= 8 && op <= 10) { big_q (v [2], "z", big) ; v_assume (mpq_sgn (v [2]) != 0) ; }
    if (al == 1) mpq_set (v [0], v [1]) ;
    if (al == 2) mpq_set (v [0], v [2]) ;
    for (int k = 0 ; k < 3 ; k++) mpq_set (a [k], v [k]) ;
    mpq_ptr x = v [0], y = al == 1 ? v [0] : v [1], z = al == 2 ? v [0] : v [2] ;
    mpq_set (want, v [0]) ;
    OK (q_op (op, want, al == 1 ? want : y, al == 2 ? want : z, w, f, s, d)) ;
    TRY (q_op (op, x, y, z, w, f, s, d)) ;
    for (int k = 1 ; k < 3 ; k++) v_check (mpq_equal (v [k], a [k]), "operand not modified") ;
    if (fired)
    {
        if (broken_q (x)) { clear_q (x) ; mpq_init (x) ; }
        mpq_set (x, a [0]) ;
        OK (q_op (op, x, y, z, w, f, s, d)) ;
    }
    v_reach ("ok") ;
    v_check (mpz_cmp (mpq_numref (x), mpq_numref (want)) == 0 && mpz_cmp (mpq_denref (x), mpq_denref (want)) == 0, "the result") ;
    for (int k = 0 ; k < 3 ; k++) { clear_q (v [k]) ; mpq_clear (a [k]) ; }
    mpq_clear (want) ; mpz_clear (w) ; mpfr_clear (f) ;
    finish () ;
}

/* creation: a failed creation leaves nothing */
void h_init (void)
{
    int op = v_choose ("op", 5), fired, n = v_choose ("live", 2) ;
    mode = v_choose ("mode", 3) ;
    start () ;
    mpz_t z, other ;
    mpq_t q ;
    mpfr_t f ;
    SLIP_info r ;
    mpz_init (other) ;
    if (n) v_mpz (other, "o") ;
    memset (z, 0, sizeof (z)) ; memset (q, 0, sizeof (q)) ; memset (f, 0, sizeof (f)) ;
    for (int again = 0 ; again < 2 ; again++)
    {
        if (again == 0)
        {
            switch (op)
            {
                case 0: TRY (SLIP_mpz_init (z)) ; break ;
                case 1: TRY (SLIP_mpz_init2 (z, 200)) ; break ;
                case 2: TRY (SLIP_mpq_init (q)) ; break ;
                case 3: TRY (SLIP_mpfr_init2 (f, 200)) ; break ;
                default: TRY (SLIP_mpfr_free_cache ()) ; break ;
            }
            if (!fired) break ;
            v_check (z->_mp_d == NULL && mpq_denref (q)->_mp_d == NULL && f->_mpfr_d == NULL, "nothing created") ;
        }
        else
        {
            switch (op)
            {
                case 0: OK (SLIP_mpz_init (z)) ; break ;
                case 1: OK (SLIP_mpz_init2 (z, 200)) ; break ;
                case 2: OK (SLIP_mpq_init (q)) ; break ;
                case 3: OK (SLIP_mpfr_init2 (f, 200)) ; break ;
                default: break ;
            }
        }
    }
    v_reach ("ok") ;
    clear_z (z) ; clear_q (q) ; clear_f (f) ; mpz_clear (other) ;
    finish () ;
}

static int same_mat (SLIP_matrix *X, SLIP_matrix *Y)
{
    if (X == NULL || Y == NULL || X->kind != Y->kind || X->type != Y->type || X->m != Y->m || X->n != Y->n) return 0 ;
    int64_t nz = SLIP_matrix_nnz (X, NULL) ;
    if (nz != SLIP_matrix_nnz (Y, NULL)) return 0 ;
    for (int64_t k = 0 ; k < nz ; k++)
    {
        if (X->kind != SLIP_DENSE && X->i [k] != Y->i [k]) return 0 ;
        switch (X->type)
        {
            case SLIP_MPZ: if (mpz_cmp (X->x.mpz [k], Y->x.mpz [k]) != 0) return 0 ; break ;
            case SLIP_MPQ: if (!mpq_equal (X->x.mpq [k], Y->x.mpq [k])) return 0 ; break ;
            case SLIP_MPFR: if (!mpfr_equal_p (X->x.mpfr [k], Y->x.mpfr [k])) return 0 ; break ;
            case SLIP_INT64: if (X->x.int64 [k] != Y->x.int64 [k]) return 0 ; break ;
            default: if (X->x.fp64 [k] != Y->x.fp64 [k]) return 0 ; break ;
        }
    }
    return mpq_equal (X->scale, Y->scale) ;
}

/* one symbolic entry, one fixed entry */
static SLIP_matrix *mk_any (int kind, int type, SLIP_options *o)
{
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, kind, type, 2, 1, 2, false, true, o)) ;
    for (int k = 0 ; k < 2 ; k++)
    {
        switch (type)
        {
            case SLIP_MPZ: if (k) mpz_set_si (A->x.mpz [k], 6) ; else v_mpz (A->x.mpz [k], "x") ; break ;
            case SLIP_MPQ: if (k) mpq_set_si (A->x.mpq [k], 5, 3) ; else v_mpq (A->x.mpq [k], "x") ; break ;
            case SLIP_MPFR: if (k) mpfr_set_d (A->x.mpfr [k], 1.5, MPFR_RNDN) ; else mpfr_set_si (A->x.mpfr [k], v_choose ("f", 3) - 1, MPFR_RNDN) ; break ;
            case SLIP_INT64: A->x.int64 [k] = k ? 4 : v_int ("x", INT64_MIN, INT64_MAX) ; break ;
            default: A->x.fp64 [k] = k ? 0.5 : v_choose ("d", 3) - 0.5 ; break ;
        }
        if (kind != SLIP_DENSE) A->i [k] = k ;
        if (kind == SLIP_TRIPLET) A->j [k] = 0 ;
    }
    if (kind == SLIP_CSC) { A->p [0] = 0 ; A->p [1] = 2 ; }
    if (kind == SLIP_TRIPLET) A->nz = 2 ;
    return A ;
}

/* matrix objects: options, creation, copies, checks */
void h_copy (void)
{
    int kind = v_choose ("kind", 3), type = v_choose ("type", 5), ck = v_choose ("ckind", 3), ct = v_choose ("ctype", 5), fired ;
    mode = v_choose ("mode", 3) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    SLIP_matrix *A = mk_any (kind, type, o), *C = NULL, *W = NULL ;
    if (type == SLIP_MPZ) { if (ct == SLIP_INT64) mpq_set_si (A->scale, 3, 2) ; else pos_scale (A->scale, "scale") ; }
    v_grow (v_choose ("grow", 2)) ;
    SLIP_info r = SLIP_matrix_copy (&W, ck, ct, A, o) ;
    v_assume (r == SLIP_OK) ;
    int t0 = v_shadow (A, sizeof (*A)) ;
    TRY (SLIP_matrix_copy (&C, ck, ct, A, o)) ;
    v_check (fired == (C == NULL), "an object exactly on success") ;
    v_check (v_same (t0), "input not modified") ;
    if (fired) OK (SLIP_matrix_copy (&C, ck, ct, A, o)) ;
    v_reach ("ok") ;
    v_check (same_mat (C, W), "the copy") ;
    SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&C, o) ; SLIP_matrix_free (&W, o) ;
    SLIP_FREE (o) ;
    finish () ;
}
void h_make (void)
{
    int what = v_choose ("what", 3), kind = v_choose ("kind", 3), type = v_choose ("type", 5), fired ;
    mode = v_choose ("mode", 3) ;
    start () ;
    SLIP_matrix *A = NULL ;
    SLIP_options *o = NULL ;
    SLIP_info r ;
    if (what == 0)
    {
        if (mode) v_fault_on (mode) ; o = SLIP_create_default_options () ; if (mode) v_fault_off () ;
        v_check (v_fault_fired () == (o == NULL), "options exactly when memory allows") ;
        if (o == NULL) { v_reach ("no-memory") ; o = mk_opt () ; }
    }
    else
    {
        int sh = v_choose ("shallow", 2), in = v_choose ("init", 2) ;
        if (what == 1)
        {
            TRY (SLIP_matrix_allocate (&A, kind, type, 2, 2, 3, sh, in, NULL)) ;
            v_check (fired == (A == NULL), "an object exactly on success") ;
            if (fired) OK (SLIP_matrix_allocate (&A, kind, type, 2, 2, 3, sh, in, NULL)) ;
        }
        else
        {
            A = mk_any (kind, type, NULL) ;
            o = mk_opt () ;
            o->print_level = v_choose ("pr", 4) ;
            int t0 = v_shadow (A, sizeof (*A)) ;
            TRY (SLIP_matrix_check (A, o)) ;
            v_check (fired == v_fault_fired (), "an incomplete check is reported") ;
            v_check (v_same (t0), "input not modified") ;
            if (fired) OK (SLIP_matrix_check (A, o)) ;
        }
    }
    v_reach ("ok") ;
    SLIP_matrix_free (&A, NULL) ;
    SLIP_FREE (o) ;
    finish () ;
}

static void opts (SLIP_options *o, int piv, int order) { o->pivot = piv ; o->order = order ; }

static SLIP_matrix *pick_A (int n, int pat, int sym)
{
    if (n <= 3) return mk_mixed (n, pat, sym, 1, "a") ;
    int shape = v_choose ("shape", 11) ;
    int seed = v_choose ("seed", 6) ;
    int nsym = v_choose ("nsym", 3) ;
    return mk_big (n, shape, seed, nsym, 1, "a") ;
}

/* factorization; lnz, unz small so that L and U have to grow */
void h_factorize (void)
{
    int n = 1 + v_choose ("n", 3), sym = v_choose ("sym", 1 << (n > 3 ? 0 : n*n)), pat = v_choose ("pat", 1 << (n > 3 ? 0 : n*n)), order = v_choose ("order", 3), piv = v_choose ("pivot", 6), tight = v_choose ("tight", 2), fired ;
    mode = v_choose ("mode", 3) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    opts (o, piv, order) ;
    SLIP_matrix *A = pick_A (n, pat, sym), *L = NULL, *U = NULL, *rhos = NULL ;
    int64_t *pinv = NULL ;
    SLIP_LU_analysis *S = NULL ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    if (tight) { S->lnz = 1 ; S->unz = 1 ; }
    mpz_t d ;
    mpz_init (d) ; det_A (d, A) ;
    snap_t s ;
    snap_take (&s, A) ;
    v_grow (v_choose ("grow", 2)) ;
    if (mode) v_fault_on (mode) ;
    SLIP_info r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o) ;
    if (mode) v_fault_off () ;
    fired = v_fault_fired () ;
    if (fired && r == SLIP_OUT_OF_MEMORY) v_reach ("no-memory") ;
    else v_check (r == (mpz_sgn (d) ? SLIP_OK : SLIP_SINGULAR), "status") ;
    snap_same (&s, A, "input not modified") ;
    if (r != SLIP_OK)
    {
        v_check (!L && !U && !rhos && !pinv, "no output on failure") ;
        r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o) ;
        v_check (r == (mpz_sgn (d) ? SLIP_OK : SLIP_SINGULAR), "status of the retry") ;
    }
    v_check ((r == SLIP_OK) == (L && U && rhos && pinv), "output exactly on success") ;
    v_reach ("ok") ;
    snap_drop (&s) ;
    mpz_clear (d) ;
    SLIP_LU_analysis_free (&S, o) ; SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&L, o) ; SLIP_matrix_free (&U, o) ; SLIP_matrix_free (&rhos, o) ;
    SLIP_FREE (pinv) ; SLIP_FREE (o) ;
    finish () ;
}

/* solve from factors, and the driver */
void h_solve (void)
{
    int n = 1 + v_choose ("n", 3), sym = v_choose ("sym", 1 << (n > 3 ? 0 : n*n)), pat = v_choose ("pat", 1 << (n > 3 ? 0 : n*n)), bs = v_choose ("bsym", 1 << (n < 20 ? n : 20)), order = v_choose ("order", 3), piv = v_choose ("pivot", 6), chk = v_choose ("check", 2) ;
    int how = v_choose ("how", 4), fired ;
    static const SLIP_type ty [] = { SLIP_MPQ, SLIP_MPQ, SLIP_FP64, SLIP_MPFR } ;
    mode = v_choose ("mode", 3) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    opts (o, piv, order) ;
    o->check = chk ;
    SLIP_matrix *A = pick_A (n, pat, sym), *b = mk_bm (n, 1, bs, "b"), *L = NULL, *U = NULL, *rhos = NULL, *X = NULL ;
    int64_t *pinv = NULL ;
    SLIP_LU_analysis *S = NULL ;
    SLIP_info r ;
    mpz_t d ;
    mpz_init (d) ; det_A (d, A) ; v_assume (mpz_sgn (d) != 0) ; mpz_clear (d) ;
    if (v_choose ("scale", 2)) pos_scale (b->scale, "bscale") ;
    if (how == 0)
    {
        OK (SLIP_LU_analyze (&S, A, o)) ;
        OK (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o)) ;
    }
    snap_t s, t ;
    snap_take (&s, A) ; snap_take (&t, b) ;
    v_grow (v_choose ("grow", 2)) ;
    if (how == 0) TRY (SLIP_LU_solve (&X, b, A, L, U, rhos, S, pinv, o)) ;
    else TRY (SLIP_backslash (&X, ty [how], A, b, o)) ;
    snap_same (&s, A, "input not modified") ; snap_same (&t, b, "input not modified") ;
    v_check (fired == (X == NULL), "a solution exactly on success") ;
    if (fired)
    {
        if (how == 0) OK (SLIP_LU_solve (&X, b, A, L, U, rhos, S, pinv, o)) ;
        else OK (SLIP_backslash (&X, ty [how], A, b, o)) ;
    }
    v_reach ("ok") ;
    if (how < 2) check_solution (A, b, X, "A X = B") ;
    snap_drop (&s) ; snap_drop (&t) ;
    SLIP_LU_analysis_free (&S, o) ; SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&b, o) ; SLIP_matrix_free (&L, o) ; SLIP_matrix_free (&U, o) ; SLIP_matrix_free (&rhos, o) ; SLIP_matrix_free (&X, o) ;
    SLIP_FREE (pinv) ; SLIP_FREE (o) ;
    finish () ;
}
