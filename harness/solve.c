#include "common.h"

static SLIP_options *opt_from (int order, int piv)
{
    SLIP_options *o = mk_opt () ;
    o->order = (SLIP_col_order) order ;
    o->pivot = (SLIP_pivot) piv ;
    int t = piv == SLIP_TOL_SMALLEST || piv == SLIP_TOL_LARGEST ? v_choose ("tol", 5) : 0 ;
    if (t == 1) o->tol = 0.5 ;
    if (t == 2) o->tol = 0.125 ;
    if (t == 4) o->tol = 0 ;
    if (t == 3)
    {
        double d = v_double ("tolv", 0) ;
        v_assume (d > 0 && d <= 1) ;
        o->tol = d ;
    }
    return o ;
}

/* inputs shared by the solver entries */
static SLIP_matrix *in_A (int n)
{
    int nz = v_choose ("nz", 2) ;
    if (n > 5)
    {
        int shape = v_choose ("shape", 11) ;
        int seed = v_choose ("seed", 6) ;
        int nsym = v_choose ("nsym", 3) ;
        int jum = v_choose ("jumbled", 2) ;
        SLIP_matrix *A = mk_big (n, shape, seed, nsym, nz, "a") ;
        if (jum) jumble (A) ;
        return A ;
    }
    int64_t pat = v_choose ("pat", 1 << (n*n)) ;
    int64_t sym = v_choose ("sym", 1 << (n*n)) ;
    int jum = v_choose ("jumbled", 2) ;
    SLIP_matrix *A = mk_mixed (n, pat, sym, nz, "a") ;
    if (jum) jumble (A) ;
    return A ;
}

/* C01, C02, C19: exact solve */
void h_solve (void)
{
    int n = v_choose ("n", 5) ;
    int nrhs = v_choose ("nrhs", 6) ;
    int how = v_choose ("how", 2) ;
    int order = v_choose ("order", 3) ;
    int piv = v_choose ("pivot", 6) ;
    int sc = v_choose ("scale", 2) ;
    start () ;
    SLIP_matrix *A = in_A (n), *b = mk_bm (n, nrhs, v_choose ("bsym", 1 << (n < 20 ? n : 20)), "b"), *X = NULL ;
    if (sc) { pos_scale (A->scale, "as") ; pos_scale (b->scale, "bs") ; }
    SLIP_options *o = opt_from (order, piv) ;
    SLIP_info r = how ? fsolve (&X, A, b, o) : SLIP_backslash (&X, SLIP_MPQ, A, b, o) ;
    mpz_t d ;
    mpz_init (d) ;
    det_A (d, A) ;
    v_obs_mpz ("det", d) ;
    v_obs_int ("status", r) ;
    if (r == SLIP_OK)
    {
        v_reach ("solved") ;
        v_check (mpz_sgn (d) != 0, "solved although det = 0") ;
        check_solution (A, b, X, "A X = B") ;
        for (int k = 0 ; k < n*nrhs ; k++) v_obs_mpq ("x", X->x.mpq [k]) ;
    }
    else
    {
        v_reach ("singular") ;
        v_check (r == SLIP_SINGULAR, "status is OK or SINGULAR") ;
        v_check (mpz_sgn (d) == 0, "singular reported although det != 0") ;
        v_check (X == NULL, "no solution object on failure") ;
    }
    mpz_clear (d) ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&b, NULL) ; SLIP_matrix_free (&X, NULL) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* C02: singular iff det = 0, without solving */
void h_singular (void)
{
    int n = v_choose ("n", 6) ;
    int order = v_choose ("order", 3) ;
    int piv = v_choose ("pivot", 6) ;
    start () ;
    SLIP_matrix *A = in_A (n), *L = NULL, *U = NULL, *rhos = NULL ;
    int64_t *pinv = NULL ;
    SLIP_LU_analysis *S = NULL ;
    SLIP_options *o = opt_from (order, piv) ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    SLIP_info r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o) ;
    mpz_t d ;
    mpz_init (d) ;
    det_A (d, A) ;
    v_obs_int ("status", r) ;
    v_obs_mpz ("det", d) ;
    if (r == SLIP_OK)
    {
        v_reach ("ok") ;
        v_check (mpz_sgn (d) != 0, "factorized although det = 0") ;
        v_check (L && U && rhos && pinv, "all factors returned") ;
    }
    else
    {
        v_reach ("singular") ;
        v_check (r == SLIP_SINGULAR, "status is OK or SINGULAR") ;
        v_check (mpz_sgn (d) == 0, "singular reported although det != 0") ;
        v_check (!L && !U && !rhos && !pinv, "no factors returned for a singular matrix") ;
    }
    mpz_clear (d) ;
    SLIP_LU_analysis_free (&S, NULL) ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&L, NULL) ; SLIP_matrix_free (&U, NULL) ; SLIP_matrix_free (&rhos, NULL) ;
    SLIP_FREE (pinv) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* C04, C05: the factors and the pivots chosen */
void h_factors (void)
{
    int n = v_choose ("n", 5) ;
    int order = v_choose ("order", 3) ;
    int piv = v_choose ("pivot", 6) ;
    int ident = v_choose ("identity", 2) ;
    start () ;
    SLIP_matrix *A = in_A (n), *L = NULL, *U = NULL, *rhos = NULL ;
    int64_t *pinv = NULL, row [80] ;
    SLIP_LU_analysis *S = NULL ;
    SLIP_options *o = opt_from (order, piv) ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    SLIP_info r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o) ;
    v_obs_int ("status", r) ;
    if (r == SLIP_OK)
    {
        v_reach ("ok") ;
        v_check (L->kind == SLIP_CSC && L->type == SLIP_MPZ && L->m == n && L->n == n, "L object") ;
        v_check (U->kind == SLIP_CSC && U->type == SLIP_MPZ && U->m == n && U->n == n, "U object") ;
        v_check (rhos->kind == SLIP_DENSE && rhos->type == SLIP_MPZ && rhos->m == n && rhos->n == 1, "rhos object") ;
        is_perm (pinv, n, "pinv is a permutation") ;
        is_perm (S->q, n, "q is a permutation") ;
        for (int k = 0 ; k < n ; k++) row [pinv [k]] = k ;
        for (int k = 0 ; k < n ; k++) { v_obs_int ("row", row [k]) ; v_obs_int ("q", S->q [k]) ; v_obs_mpz ("rho", rhos->x.mpz [k]) ; }
        /* structure */
        v_check (L->p [0] == 0 && U->p [0] == 0, "p[0] = 0") ;
        v_check (L->p [n] <= L->nzmax && U->p [n] <= U->nzmax, "entries fit in the arrays") ;
        for (int k = 0 ; k < n ; k++)
        {
            int dl = 0, du = 0, seen [80] ;
            v_check (L->p [k] <= L->p [k+1] && U->p [k] <= U->p [k+1], "column pointers") ;
            for (int i = 0 ; i < n ; i++) seen [i] = 0 ;
            for (int64_t t = L->p [k] ; t < L->p [k+1] ; t++)
            {
                v_check (L->i [t] >= k && L->i [t] < n, "L is lower triangular") ;
                v_check (!seen [L->i [t]]++, "no duplicate in L") ;
                if (L->i [t] == k) { dl++ ; v_check (mpz_cmp (L->x.mpz [t], rhos->x.mpz [k]) == 0, "pivot on the diagonal of L") ; }
            }
            for (int i = 0 ; i < n ; i++) seen [i] = 0 ;
            for (int64_t t = U->p [k] ; t < U->p [k+1] ; t++)
            {
                v_check (U->i [t] >= 0 && U->i [t] <= k, "U is upper triangular") ;
                v_check (!seen [U->i [t]]++, "no duplicate in U") ;
                if (U->i [t] == k) { du++ ; v_check (mpz_cmp (U->x.mpz [t], rhos->x.mpz [k]) == 0, "pivot on the diagonal of U") ; }
            }
            v_check (dl == 1 && du == 1, "one diagonal entry per column") ;
            v_check (mpz_sgn (rhos->x.mpz [k]) != 0, "pivots are nonzero") ;
        }
        /* pivot rule at every step: candidates are the entries of column k of L */
        mpq_t a, b, tol ;
        mpz_t z ;
        mpq_init (a) ; mpq_init (b) ; mpq_init (tol) ; mpz_init (z) ;
        mpq_set_d (tol, o->tol) ;
        for (int k = 0 ; k < n ; k++)
        {
            int64_t diag = -1 ;
            int chose_diag = row [k] == S->q [k], small = 1, large = 1, first = 1 ;
            for (int64_t t = L->p [k] ; t < L->p [k+1] ; t++)
                if (row [L->i [t]] == S->q [k] && mpz_sgn (L->x.mpz [t]) != 0) diag = t ;
            int need_small = piv == SLIP_SMALLEST || (piv == SLIP_DIAGONAL && diag < 0) || (piv == SLIP_TOL_SMALLEST && !chose_diag) ;
            int need_large = piv == SLIP_LARGEST || (piv == SLIP_TOL_LARGEST && !chose_diag) ;
            if (piv == SLIP_DIAGONAL && diag >= 0) { v_reach ("diagonal") ; v_check (chose_diag, "nonzero diagonal is chosen") ; }
            for (int64_t t = L->p [k] ; t < L->p [k+1] ; t++)
            {
                int s = mpz_sgn (L->x.mpz [t]) ;
                if (L->i [t] == k) first = 0 ;
                if (s == 0) { v_check (L->i [t] != k, "pivot is nonzero") ; continue ; }
                if (L->i [t] == k) continue ;
                if (need_small) { v_reach ("small") ; v_check (mpz_cmpabs (rhos->x.mpz [k], L->x.mpz [t]) <= 0, "smallest magnitude is chosen") ; }
                if (need_large) { v_reach ("large") ; v_check (mpz_cmpabs (rhos->x.mpz [k], L->x.mpz [t]) >= 0, "largest magnitude is chosen") ; }
                if (piv == SLIP_FIRST_NONZERO) { v_reach ("first") ; v_check (!first, "first nonzero is chosen") ; }
                if ((piv == SLIP_TOL_SMALLEST || piv == SLIP_TOL_LARGEST) && chose_diag)
                {
                    /* diagonal chosen: within the tolerance of every candidate */
                    v_reach ("tol-diag") ;
                    mpz_abs (z, rhos->x.mpz [k]) ; mpq_set_z (a, z) ;
                    mpz_abs (z, L->x.mpz [t]) ; mpq_set_z (b, z) ;
                    if (piv == SLIP_TOL_SMALLEST) { mpq_mul (a, a, tol) ; v_check (mpq_cmp (b, a) >= 0, "diagonal within tolerance of the smallest") ; }
                    else { mpq_mul (b, b, tol) ; v_check (mpq_cmp (a, b) >= 0, "diagonal within tolerance of the largest") ; }
                }
            }
            if ((piv == SLIP_TOL_SMALLEST || piv == SLIP_TOL_LARGEST) && !chose_diag && diag >= 0)
            {
                /* diagonal refused: outside the tolerance */
                v_reach ("tol-refused") ;
                mpz_abs (z, L->x.mpz [diag]) ; mpq_set_z (a, z) ;
                mpz_abs (z, rhos->x.mpz [k]) ; mpq_set_z (b, z) ;
                if (piv == SLIP_TOL_SMALLEST) { mpq_mul (a, a, tol) ; v_check (mpq_cmp (b, a) < 0, "diagonal refused although within tolerance (smallest)") ; }
                else { mpq_mul (b, b, tol) ; v_check (mpq_cmp (a, b) < 0, "diagonal refused although within tolerance (largest)") ; }
            }
        }
        if (ident)
        {
            /* L D^-1 U = P A Q */
            mpq_t s ;
            mpq_init (s) ;
            for (int j = 0 ; j < n ; j++)
                for (int i = 0 ; i < n ; i++)
                {
                    mpq_set_ui (s, 0, 1) ;
                    for (int64_t t = U->p [j] ; t < U->p [j+1] ; t++)
                    {
                        int64_t k = U->i [t] ;
                        for (int64_t u = L->p [k] ; u < L->p [k+1] ; u++)
                        {
                            if (L->i [u] != i) continue ;
                            mpz_mul (z, L->x.mpz [u], U->x.mpz [t]) ;
                            mpq_set_z (a, z) ;
                            if (k > 0) mpz_mul (z, rhos->x.mpz [k-1], rhos->x.mpz [k]) ; else mpz_set (z, rhos->x.mpz [k]) ;
                            mpq_set_z (b, z) ;
                            mpq_div (a, a, b) ;
                            mpq_add (s, s, a) ;
                        }
                    }
                    get_A (z, A, row [i], S->q [j]) ;
                    mpq_set_z (a, z) ;
                    v_check (mpq_equal (a, s) != 0, "L D^-1 U = P A Q") ;
                }
            det_A (z, A) ;
            v_check (mpz_cmpabs (z, rhos->x.mpz [n-1]) == 0, "last pivot is +-det") ;
            mpq_clear (s) ;
        }
        mpq_clear (a) ; mpq_clear (b) ; mpq_clear (tol) ; mpz_clear (z) ;
    }
    else { v_reach ("singular") ; v_check (r == SLIP_SINGULAR, "status is OK or SINGULAR") ; }
    SLIP_LU_analysis_free (&S, NULL) ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&L, NULL) ; SLIP_matrix_free (&U, NULL) ; SLIP_matrix_free (&rhos, NULL) ;
    SLIP_FREE (pinv) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* C05: changing the signs of whole rows does not change the rows picked */
void h_flip (void)
{
    int n = v_choose ("n", 4) ;
    int order = v_choose ("order", 3) ;
    int piv = v_choose ("pivot", 6) ;
    int flip = v_choose ("flip", 1 << (n < 20 ? n : 20)) ;
    start () ;
    SLIP_matrix *A = in_A (n), *B = NULL ;
    SLIP_options *o = opt_from (order, piv) ;
    OK (SLIP_matrix_copy (&B, SLIP_CSC, SLIP_MPZ, A, o)) ;
    for (int64_t t = 0 ; t < B->p [n] ; t++) if (flip >> B->i [t] % 20 & 1) mpz_neg (B->x.mpz [t], B->x.mpz [t]) ;
    SLIP_LU_analysis *S = NULL ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    SLIP_matrix *L1 = NULL, *U1 = NULL, *r1 = NULL, *L2 = NULL, *U2 = NULL, *r2 = NULL ;
    int64_t *p1 = NULL, *p2 = NULL ;
    SLIP_info s1 = SLIP_LU_factorize (&L1, &U1, &r1, &p1, A, S, o) ;
    SLIP_info s2 = SLIP_LU_factorize (&L2, &U2, &r2, &p2, B, S, o) ;
    v_check (s1 == s2, "same status when rows change sign") ;
    if (s1 == SLIP_OK)
    {
        v_reach ("ok") ;
        for (int k = 0 ; k < n ; k++) v_check (p1 [k] == p2 [k], "same pivot rows when rows change sign") ;
        for (int k = 0 ; k < n ; k++) v_obs_int ("pinv", p1 [k]) ;
    }
    SLIP_LU_analysis_free (&S, NULL) ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&B, NULL) ;
    SLIP_matrix_free (&L1, NULL) ; SLIP_matrix_free (&U1, NULL) ; SLIP_matrix_free (&r1, NULL) ;
    SLIP_matrix_free (&L2, NULL) ; SLIP_matrix_free (&U2, NULL) ; SLIP_matrix_free (&r2, NULL) ;
    SLIP_FREE (p1) ; SLIP_FREE (p2) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* C06: inputs untouched, factors reusable */
void h_reuse (void)
{
    int n = v_choose ("n", 4) ;
    int order = v_choose ("order", 3) ;
    int piv = v_choose ("pivot", 6) ;
    int check = v_choose ("check", 2) ;
    int sc = v_choose ("scale", 3) ;
    start () ;
    SLIP_matrix *A = in_A (n), *b1 = mk_bm (n, 1, v_choose ("bsym", 1 << (n < 20 ? n : 20)), "b"), *b2 = mk_bm (n, 1, v_choose ("csym", 1 << (n < 20 ? n : 20)), "c"), *L = NULL, *U = NULL, *rhos = NULL ;
    SLIP_matrix *X1 = NULL, *X2 = NULL, *X3 = NULL, *X4 = NULL ;
    int64_t *pinv = NULL ;
    if (sc == 1) { mpq_set_ui (A->scale, 3, 2) ; mpq_set_ui (b1->scale, 5, 7) ; }
    if (sc == 2) { pos_scale (A->scale, "as") ; pos_scale (b1->scale, "bs") ; }
    SLIP_LU_analysis *S = NULL ;
    SLIP_options *o = opt_from (order, piv), o2 ;
    o->check = check ;
    o2 = *o ;
    snap_t sA, s1, s2, sL, sU, sr ;
    snap_take (&sA, A) ; snap_take (&s1, b1) ; snap_take (&s2, b2) ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    snap_same (&sA, A, "analyze does not change A") ;
    int64_t lnz = S->lnz, unz = S->unz, *q = icopy (S->q, n+1), *qp = S->q ;
    SLIP_info r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o) ;
    snap_same (&sA, A, "factorize does not change A") ;
    v_obs_int ("status", r) ;
    if (r == SLIP_OK)
    {
        v_reach ("ok") ;
        int64_t *pc = icopy (pinv, n) ;
        snap_take (&sL, L) ; snap_take (&sU, U) ; snap_take (&sr, rhos) ;
        OK (SLIP_LU_solve (&X1, b1, A, L, U, rhos, S, pinv, o)) ;
        OK (SLIP_LU_solve (&X2, b2, A, L, U, rhos, S, pinv, o)) ;
        OK (SLIP_LU_solve (&X3, b1, A, L, U, rhos, S, pinv, o)) ;
        same_X (X1, X3, "solving again with the same factors gives the same result") ;
        check_solution (A, b1, X3, "A X = B after reuse") ;
        check_solution (A, b2, X2, "A X = B after reuse") ;
        snap_same (&sA, A, "solve does not change A") ;
        snap_same (&s1, b1, "solve does not change b") ;
        snap_same (&s2, b2, "solve does not change b") ;
        snap_same (&sL, L, "solve does not change L") ;
        snap_same (&sU, U, "solve does not change U") ;
        snap_same (&sr, rhos, "solve does not change rhos") ;
        for (int k = 0 ; k < n ; k++) v_check (pc [k] == pinv [k], "solve does not change pinv") ;
        free (pc) ; snap_drop (&sL) ; snap_drop (&sU) ; snap_drop (&sr) ;
    }
    v_check (S->q == qp && S->lnz == lnz && S->unz == unz, "S unchanged") ;
    for (int k = 0 ; k < n ; k++) v_check (S->q [k] == q [k], "q unchanged") ;
    free (q) ;
    SLIP_info rb = SLIP_backslash (&X4, SLIP_MPQ, A, b1, o) ;
    v_check (rb == r, "same status from the one-call interface") ;
    if (rb == SLIP_OK) same_X (X1, X4, "one-call interface gives the same result") ;
    snap_same (&sA, A, "backslash does not change A") ;
    snap_same (&s1, b1, "backslash does not change b") ;
    v_check (o->pivot == o2.pivot && o->order == o2.order && o->tol == o2.tol && o->print_level == o2.print_level
        && o->prec == o2.prec && o->round == o2.round && o->check == o2.check, "options unchanged") ;
    snap_drop (&sA) ; snap_drop (&s1) ; snap_drop (&s2) ;
    SLIP_LU_analysis_free (&S, NULL) ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&b1, NULL) ; SLIP_matrix_free (&b2, NULL) ;
    SLIP_matrix_free (&L, NULL) ; SLIP_matrix_free (&U, NULL) ; SLIP_matrix_free (&rhos, NULL) ;
    SLIP_matrix_free (&X1, NULL) ; SLIP_matrix_free (&X2, NULL) ; SLIP_matrix_free (&X3, NULL) ; SLIP_matrix_free (&X4, NULL) ;
    SLIP_FREE (pinv) ; SLIP_FREE (o) ;
    finish () ;
}

/* C08: NULL option = default option object */
void h_default (void)
{
    int n = v_choose ("n", 4) ;
    start () ;
    SLIP_matrix *A = in_A (n), *b = mk_bm (n, 1, v_choose ("bsym", 1 << (n < 20 ? n : 20)), "b") ;
    SLIP_options *o = SLIP_create_default_options () ;
    v_check (o != NULL, "default options created") ;
    v_check (o->pivot == SLIP_TOL_SMALLEST && o->order == SLIP_COLAMD && o->tol == 1 && o->print_level == 0
        && o->prec == 128 && o->round == MPFR_RNDN && o->check == false, "documented default values") ;
    SLIP_LU_analysis *S1 = NULL, *S2 = NULL ;
    OK (SLIP_LU_analyze (&S1, A, NULL)) ;
    OK (SLIP_LU_analyze (&S2, A, o)) ;
    v_check (S1->lnz == S2->lnz && S1->unz == S2->unz, "same estimates") ;
    for (int k = 0 ; k < n ; k++) v_check (S1->q [k] == S2->q [k], "same ordering") ;
    SLIP_matrix *L1 = NULL, *U1 = NULL, *r1 = NULL, *L2 = NULL, *U2 = NULL, *r2 = NULL, *X1 = NULL, *X2 = NULL ;
    int64_t *p1 = NULL, *p2 = NULL ;
    SLIP_info s1 = SLIP_LU_factorize (&L1, &U1, &r1, &p1, A, S1, NULL) ;
    SLIP_info s2 = SLIP_LU_factorize (&L2, &U2, &r2, &p2, A, S2, o) ;
    v_check (s1 == s2, "same factorize status") ;
    if (s1 == SLIP_OK)
    {
        v_reach ("ok") ;
        for (int k = 0 ; k < n ; k++)
        {
            v_check (p1 [k] == p2 [k], "same row permutation") ;
            v_check (mpz_cmp (r1->x.mpz [k], r2->x.mpz [k]) == 0, "same pivots") ;
        }
        OK (SLIP_LU_solve (&X1, b, A, L1, U1, r1, S1, p1, NULL)) ;
        OK (SLIP_LU_solve (&X2, b, A, L2, U2, r2, S2, p2, o)) ;
        same_X (X1, X2, "same solution") ;
    }
    SLIP_matrix *Y1 = NULL, *Y2 = NULL ;
    int t = v_choose ("xtype", 3) ;
    SLIP_type ty = t == 0 ? SLIP_MPQ : t == 1 ? SLIP_FP64 : SLIP_MPFR ;
    s1 = SLIP_backslash (&Y1, ty, A, b, NULL) ;
    s2 = SLIP_backslash (&Y2, ty, A, b, o) ;
    v_check (s1 == s2, "same backslash status") ;
    if (s1 == SLIP_OK)
        for (int k = 0 ; k < n ; k++)
        {
            if (t == 0) v_check (mpq_equal (Y1->x.mpq [k], Y2->x.mpq [k]) != 0, "same backslash result") ;
            if (t == 1) v_check (Y1->x.fp64 [k] == Y2->x.fp64 [k], "same backslash result") ;
            if (t == 2)
            {
                v_check (mpfr_get_prec (Y1->x.mpfr [k]) == 128 && mpfr_get_prec (Y2->x.mpfr [k]) == 128, "default precision") ;
                v_check (mpfr_equal_p (Y1->x.mpfr [k], Y2->x.mpfr [k]) != 0, "same backslash result") ;
            }
        }
    v_check (o->pivot == SLIP_TOL_SMALLEST && o->order == SLIP_COLAMD && o->tol == 1 && o->print_level == 0
        && o->prec == 128 && o->round == MPFR_RNDN && o->check == false, "option object unchanged") ;
    SLIP_LU_analysis_free (&S1, NULL) ; SLIP_LU_analysis_free (&S2, o) ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&b, o) ;
    SLIP_matrix_free (&L1, NULL) ; SLIP_matrix_free (&U1, NULL) ; SLIP_matrix_free (&r1, NULL) ;
    SLIP_matrix_free (&L2, NULL) ; SLIP_matrix_free (&U2, NULL) ; SLIP_matrix_free (&r2, NULL) ;
    SLIP_matrix_free (&X1, NULL) ; SLIP_matrix_free (&X2, NULL) ; SLIP_matrix_free (&Y1, NULL) ; SLIP_matrix_free (&Y2, NULL) ;
    SLIP_FREE (p1) ; SLIP_FREE (p2) ; SLIP_FREE (o) ;
    finish () ;
}

/* C14: the solution check, with the factors of A and with those of another matrix */
void h_check (void)
{
    int n = v_choose ("n", 4) ;
    int nrhs = v_choose ("nrhs", 6) ;
    int order = v_choose ("order", 3) ;
    int piv = v_choose ("pivot", 6) ;
    int other = v_choose ("other", 2) ;
    start () ;
    SLIP_matrix *A = in_A (n), *b = mk_bm (n, nrhs, v_choose ("bsym", 1 << (n < 20 ? n : 20)), "b"), *X = NULL, *Y = NULL ;
    SLIP_options *o = opt_from (order, piv) ;
    SLIP_matrix *B = A ;
    if (other)
    {
        /* same matrix with one entry changed */
        OK (SLIP_matrix_copy (&B, SLIP_CSC, SLIP_MPZ, A, o)) ;
        int e = v_choose ("entry", (int) B->p [n]) ;
        v_mpz (B->x.mpz [e], "changed") ;
    }
    SLIP_LU_analysis *S = NULL ;
    SLIP_matrix *L = NULL, *U = NULL, *rhos = NULL ;
    int64_t *pinv = NULL ;
    OK (SLIP_LU_analyze (&S, B, o)) ;
    SLIP_info r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, B, S, o) ;
    if (r == SLIP_OK)
    {
        OK (SLIP_LU_solve (&Y, b, A, L, U, rhos, S, pinv, o)) ;
        o->check = true ;
        r = SLIP_LU_solve (&X, b, A, L, U, rhos, S, pinv, o) ;
        v_obs_int ("status", r) ;
        /* is Y right? */
        int right = 1 ;
        mpq_t t, s ;
        mpq_init (t) ; mpq_init (s) ;
        for (int k = 0 ; k < nrhs ; k++)
            for (int i = 0 ; i < n ; i++)
            {
                mpq_set_ui (s, 0, 1) ;
                for (int j = 0 ; j < n ; j++)
                    for (int64_t q = A->p [j] ; q < A->p [j+1] ; q++)
                    {
                        if (A->i [q] != i) continue ;
                        mpq_set_z (t, A->x.mpz [q]) ;
                        mpq_mul (t, t, Y->x.mpq [j + n*k]) ;
                        mpq_add (s, s, t) ;
                    }
                mpq_set_z (t, b->x.mpz [i + n*k]) ;
                if (right && !mpq_equal (s, t)) right = 0 ;
            }
        mpq_clear (t) ; mpq_clear (s) ;
        if (right) { v_reach ("right") ; v_check (r == SLIP_OK && X != NULL, "a right solution passes the check") ; }
        else { v_reach ("wrong") ; v_check (r == SLIP_INCORRECT, "a wrong solution is reported") ; v_check (X == NULL, "no solution object when incorrect") ; }
        if (!other) v_check (right, "own factors give the right solution") ;
    }
    SLIP_LU_analysis_free (&S, NULL) ;
    if (other) SLIP_matrix_free (&B, NULL) ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&b, NULL) ; SLIP_matrix_free (&X, NULL) ; SLIP_matrix_free (&Y, NULL) ;
    SLIP_matrix_free (&L, NULL) ; SLIP_matrix_free (&U, NULL) ; SLIP_matrix_free (&rhos, NULL) ;
    SLIP_FREE (pinv) ; SLIP_FREE (o) ;
    finish () ;
}

/* C03: floating-point results are the conversion of the exact ones */
void h_float (void)
{
    int n = v_choose ("n", 4) ;
    int nrhs = v_choose ("nrhs", 6) ;
    int order = v_choose ("order", 3) ;
    int piv = v_choose ("pivot", 6) ;
    int fmt = v_choose ("fmt", 2) ;
    int rnd = v_choose ("round", 5) ;
    int prec = v_choose ("prec", 4) ;
    static const int precs [] = { 128, 53, 24, 200 } ;
    int sc = v_choose ("scale", 2) ;
    start () ;
    SLIP_matrix *A = in_A (n), *b = mk_bm (n, nrhs, v_choose ("bsym", 1 << (n < 20 ? n : 20)), "b"), *X = NULL, *Y = NULL ;
    if (sc) { pos_scale (A->scale, "as") ; pos_scale (b->scale, "bs") ; }
    SLIP_options *o = opt_from (order, piv) ;
    o->round = rnd ;
    o->prec = precs [prec] ;
    SLIP_info r1 = SLIP_backslash (&X, SLIP_MPQ, A, b, o) ;
    SLIP_info r2 = SLIP_backslash (&Y, fmt ? SLIP_MPFR : SLIP_FP64, A, b, o) ;
    v_obs_int ("status", r2) ;
    v_check (r1 == r2, "the output type does not change the status") ;
    if (r1 == SLIP_OK)
    {
        v_reach ("ok") ;
        v_check (Y->kind == SLIP_DENSE && Y->type == (fmt ? SLIP_MPFR : SLIP_FP64) && Y->m == n && Y->n == nrhs, "shape of X") ;
        mpfr_t f ;
        if (fmt) mpfr_init2 (f, precs [prec]) ;
        for (int k = 0 ; k < n*nrhs ; k++)
        {
            if (fmt)
            {
                mpfr_set_q (f, X->x.mpq [k], rnd) ;
                v_check (mpfr_get_prec (Y->x.mpfr [k]) == precs [prec], "requested precision") ;
                v_check (mpfr_equal_p (f, Y->x.mpfr [k]) != 0, "multiple-precision result is the rounded exact solution") ;
            }
            else
            {
                double d = mpq_get_d (X->x.mpq [k]) ;
                v_check (Y->x.fp64 [k] == d, "double result is the converted exact solution") ;
            }
        }
        if (fmt) mpfr_clear (f) ;
    }
    else v_check (X == NULL && Y == NULL, "no object on failure") ;
    SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&b, NULL) ; SLIP_matrix_free (&X, NULL) ; SLIP_matrix_free (&Y, NULL) ;
    SLIP_FREE (o) ;
    finish () ;
}
