/* What is printed: C29 */
#include "common.h"
#include "amd.h"
#include "colamd.h"

static void capture (void) { SuiteSparse_config.printf_func = v_printf ; v_pr_reset () ; }
static void uncapture (void) { SuiteSparse_config.printf_func = printf ; }

static bool value_is (const SLIP_matrix *A, int64_t p, int k)
{
    switch (A->type)
    {
        case SLIP_MPZ:   return v_pr_mpz (k, A->x.mpz [p]) ;
        case SLIP_MPQ:   return v_pr_mpq (k, A->x.mpq [p]) ;
        case SLIP_MPFR:  return v_pr_mpfr (k, A->x.mpfr [p]) ;
        case SLIP_INT64: return v_pr_int (k, A->x.int64 [p]) ;
        default:         return v_pr_dbl (k, A->x.fp64 [p]) ;
    }
}

static void set_value (SLIP_matrix *A, int64_t p, int t)
{
    const char *nm = nm2 ("v", t, -1) ;
    switch (A->type)
    {
        case SLIP_MPZ:   v_mpz (A->x.mpz [p], nm) ; break ;
        case SLIP_MPQ:   v_mpq (A->x.mpq [p], nm) ; break ;
        case SLIP_MPFR:  v_mpfr (A->x.mpfr [p], nm) ; break ;
        case SLIP_INT64: A->x.int64 [p] = v_int (nm, INT64_MIN, INT64_MAX) ; break ;
        default:         A->x.fp64 [p] = v_double (nm, 1) ;
    }
}

/* a valid matrix: level 0 and 1 print nothing, level 3 prints every entry with its place and value, level 2 a beginning of that */
void h_pr_matrix (void)
{
    int kind = v_choose ("kind", 3), type = v_choose ("type", 5), level = v_choose ("level", 5) - 1, m = v_choose ("m", 20), n = v_choose ("n", 20) ;
    int step = 1 + v_choose ("step", 6), nsym = v_choose ("nsym", 5), gap = v_choose ("gap", 3), none = v_choose ("none", 2) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    int64_t cnt = 0 ;
    if (kind == SLIP_DENSE) step = 1 ;
    for (int t = 0 ; t < m*n ; t += step + (step > 1 ? t % 3 : 0)) cnt++ ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, kind, type, m, n, cnt + (kind == SLIP_DENSE ? 0 : gap), false, true, o)) ;
    int64_t c = 0 ;
    for (int t = 0 ; t < m*n ; t += step + (step > 1 ? t % 3 : 0))
    {
        int j = t / m, i = t % m ;
        if (kind != SLIP_DENSE) A->i [c] = i ;
        if (kind == SLIP_TRIPLET) A->j [c] = j ;
        if (kind == SLIP_CSC) for (int k = j+1 ; k <= n ; k++) A->p [k] = c+1 ;
        if (c < nsym || type == SLIP_MPFR || type == SLIP_FP64) set_value (A, c, c < nsym ? c : nsym) ;
        else if (type == SLIP_MPZ) OK (SLIP_mpz_set_si (A->x.mpz [c], 7*c - 30)) ;
        else if (type == SLIP_MPQ) OK (SLIP_mpq_set_ui (A->x.mpq [c], 7*c + 3, 5)) ;
        else A->x.int64 [c] = 7*c - 30 ;
        c++ ;
    }
    if (kind == SLIP_TRIPLET) A->nz = cnt ;
    v_mpq (A->scale, "scale") ;
    o->print_level = level ;
    capture () ;
    if (none) SuiteSparse_config.printf_func = NULL ;
    SLIP_info r = SLIP_matrix_check (A, o) ;
    v_check (r == SLIP_OK, "a valid matrix is accepted at every print level") ;
    int got = v_pr_n () ;
    if (level < 2 || none) v_check (v_pr_calls () == 0, "nothing is printed about a valid matrix below level 2") ;
    else
    {
        v_check (got >= 5 && v_pr_int (0, m) && v_pr_int (1, n), "dimensions printed") ;
        v_check (v_pr_int (2, cnt), "number of entries printed") ;
        v_check (v_pr_int (3, A->nzmax), "nzmax printed") ;
        v_check (v_pr_has (kind == SLIP_CSC ? "CSC" : kind == SLIP_TRIPLET ? "Triplet" : "Dense"), "kind printed") ;
        v_check (v_pr_has (type == SLIP_MPZ ? "MPZ" : type == SLIP_MPQ ? "MPQ" : type == SLIP_MPFR ? "MPFR" : type == SLIP_INT64 ? "int64" : "double"), "type printed") ;
        v_check (v_pr_mpq (4, A->scale), "scale printed") ;
        int k = 5, lines = 0 ;
        #define MORE (k < got || level >= 3 || lines < 25)
        if (kind == SLIP_TRIPLET)
        {
            for (int64_t p = 0 ; p < cnt && MORE ; p++, lines++)
            {
                v_check (v_pr_int (k, A->i [p]) && v_pr_int (k+1, A->j [p]), "place of an entry printed") ;
                v_check (value_is (A, p, k+2), "value of an entry printed") ;
                k += 3 ;
            }
        }
        else for (int j = 0 ; j < n && MORE ; j++)
        {
            v_check (v_pr_int (k, j), "column printed") ;
            k++ ; lines++ ;
            int64_t p1 = kind == SLIP_CSC ? A->p [j] : (int64_t) j*m, p2 = kind == SLIP_CSC ? A->p [j+1] : (int64_t) (j+1)*m ;
            for (int64_t p = p1 ; p < p2 && MORE ; p++, lines++)
            {
                v_check (v_pr_int (k, kind == SLIP_CSC ? A->i [p] : p - p1), "row of an entry printed") ;
                v_check (value_is (A, p, k+1), "value of an entry printed") ;
                k += 2 ;
            }
        }
        v_check (got == k, "nothing else is printed") ;
        v_reach ("printed") ;
    }
    uncapture () ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* the place printed with an error is one with an error */
static void place_named (SLIP_matrix *A, bool duplicate)
{
    int64_t nz = A->kind == SLIP_CSC ? A->p [A->n] : A->nz ;
    int found = 0 ;
    for (int64_t j = 0, k = 0 ; k < nz ; k++)
    {
        if (A->kind == SLIP_CSC) while (A->p [j+1] <= k) j++ ;
        if (v_pr_int (0, A->i [k]) && v_pr_int (1, A->kind == SLIP_CSC ? j : A->j [k])) found += duplicate || A->i [k] < 0 || A->i [k] >= A->m ;
    }
    v_check (found >= (duplicate ? 2 : 1), "the place of the error printed") ;
}

/* a matrix with anything in it: silent at level 0, a message at level 1 exactly if it is not valid */
void h_pr_invalid (void)
{
    int kind = v_choose ("kind", 3), type = v_choose ("type", 5), bad = v_choose ("bad", 8), level = v_choose ("level", 4), none = v_choose ("none", 2) ;
    int m = 2, n = 2, cap = 2 ;
    start () ;
    SLIP_options *o = mk_opt () ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, kind, type, m, n, cap, false, true, o)) ;
    if (kind == SLIP_CSC) for (int k = 0 ; k <= n ; k++) A->p [k] = v_int (nm2 ("p", k, -1), INT64_MIN, INT64_MAX) ;
    if (kind != SLIP_DENSE) for (int k = 0 ; k < cap ; k++)
    {
        A->i [k] = v_int (nm2 ("i", k, -1), INT64_MIN, INT64_MAX) ;
        if (kind == SLIP_TRIPLET) A->j [k] = v_int (nm2 ("j", k, -1), INT64_MIN, INT64_MAX) ;
    }
    if (kind == SLIP_TRIPLET) A->nz = v_int ("nz", INT64_MIN, INT64_MAX) ;
    SLIP_matrix keep = *A ;
    if (bad == 1) A->kind = 3 ;
    if (bad == 2) A->type = 5 ;
    if (bad == 3) A->m = v_int ("badm", INT64_MIN, -1) ;
    if (bad == 4) A->n = v_int ("badn", INT64_MIN, -1) ;
    if (bad == 5) A->nzmax = v_int ("badnzmax", INT64_MIN, -1) ;
    if (bad == 6) A->i = NULL ;
    if (bad == 7) A->x.mpz = NULL ;
    o->print_level = level ;
    capture () ;
    if (none) SuiteSparse_config.printf_func = NULL ;
    SLIP_info r = SLIP_matrix_check (A, o) ;
    v_obs_int ("r", r) ;
    v_obs_int ("n", v_pr_n ()) ;
    if (level == 0 || none) v_check (v_pr_calls () == 0, "nothing is printed at level 0") ;
    else if (level == 1) v_check ((v_pr_calls () > 0) == (r != SLIP_OK), "level 1 prints errors, and only errors") ;
    else v_check ((v_pr_has ("invalid") || v_pr_has ("out of range") || v_pr_has ("duplicate")) == (r != SLIP_OK), "levels 2 and 3 print errors, too") ;
    if (level == 1 && !none && r != SLIP_OK && v_pr_n () == 2) place_named (A, v_pr_has ("duplicate")) ;
    if (r == SLIP_OK) v_reach ("valid") ; else v_reach ("invalid") ;
    uncapture () ;
    *A = keep ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* the solver prints nothing at level 0 and the same solution comes out at every level */
void h_pr_solve (void)
{
    int order = v_choose ("order", 3), pivot = v_choose ("pivot", 6), check = v_choose ("check", 2), level = v_choose ("level", 4), none = v_choose ("none", 2) ;
    int n = 2 ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->order = order ; o->pivot = pivot ; o->check = check ; o->print_level = 0 ;
    SLIP_matrix *A = mk_A (n, 15, 0, "a"), *b = mk_b (n, 1, "b"), *X = NULL, *Y = NULL ;
    capture () ;
    SLIP_info r = SLIP_backslash (&X, SLIP_MPQ, A, b, o) ;
    v_check (v_pr_calls () == 0, "the solver prints nothing at level 0") ;
    o->print_level = level ;
    if (none) SuiteSparse_config.printf_func = NULL ;
    SLIP_info r2 = SLIP_backslash (&Y, SLIP_MPQ, A, b, o) ;
    v_check (r == r2, "the outcome does not depend on the print level") ;
    if (r == SLIP_OK)
    {
        v_reach ("solved") ;
        same_X (X, Y, "the solution does not depend on the print level") ;
    }
    else v_reach ("singular") ;
    if (level == 0 || none) v_check (v_pr_calls () == 0, "nothing is printed") ;
    uncapture () ;
    SLIP_matrix_free (&X, o) ; SLIP_matrix_free (&Y, o) ; SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&b, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* AMD's report: every statistic which is there (not negative) is printed, in order, with its value */
void h_pr_amd (void)
{
    int lng = v_choose ("long", 2), what = v_choose ("what", 4), none = v_choose ("none", 2) ;
    double Info [AMD_INFO], want [40] ;
    static const int field [] = { AMD_N, AMD_NZ, AMD_SYMMETRY, AMD_NZDIAG, AMD_NZ_A_PLUS_AT, AMD_NDENSE, AMD_MEMORY, AMD_NCMPA, AMD_LNZ } ;
    static const int later [] = { AMD_NDIV, AMD_NMULTSUBS_LDL, AMD_NMULTSUBS_LU, AMD_DMAX } ;
    static const double small [] = { 3, 7, 0.5, 2, 4, 1, 320, 5, 11 } ;
    int st = v_choose ("status", 5), from = v_choose ("from", 14) ;
    for (int k = 0 ; k < AMD_INFO ; k++) Info [k] = -1 ;
    Info [AMD_STATUS] = st == 0 ? AMD_OK : st == 1 ? AMD_OK_BUT_JUMBLED : st == 2 ? AMD_INVALID : st == 3 ? AMD_OUT_OF_MEMORY : 9 ;
    for (int k = 0 ; k < 9 ; k++) Info [field [k]] = small [k] ;
    for (int k = 0 ; k < 4 ; k++) Info [later [k]] = 13 + k ;
    /* two fields may be anything */
    if (from < 13) Info [from < 9 ? field [from] : later [from - 9]] = v_double ("u", 0) ;
    if (what == 1 && from < 12) Info [from + 1 < 9 ? field [from + 1] : later [from - 8]] = v_double ("w", 0) ;
    capture () ;
    if (none) SuiteSparse_config.printf_func = NULL ;
    if (lng) amd_l_info (what == 3 ? NULL : Info) ; else amd_info (what == 3 ? NULL : Info) ;
    if (none) v_check (v_pr_calls () == 0, "nothing is printed") ;
    else
    {
        int k = 0 ;
        v_check (v_pr_int (0, AMD_MAIN_VERSION) && v_pr_int (1, AMD_SUB_VERSION) && v_pr_int (2, AMD_SUBSUB_VERSION), "version printed") ;
        k = 3 ;
        if (what != 3)
        {
            v_check (v_pr_has (st == 0 ? "status: OK\n" : st == 1 ? "jumbled" : st == 2 ? "invalid" : st == 3 ? "out of memory" : "unknown"), "status printed") ;
            for (int f = 0 ; f < 9 ; f++) if (Info [field [f]] >= 0) { v_check (v_pr_dbl (k, Info [field [f]]), "statistic printed") ; k++ ; }
            if (Info [AMD_N] >= 0 && Info [AMD_LNZ] >= 0) { v_check (v_pr_dbl (k, Info [AMD_N] + Info [AMD_LNZ]), "entries with the diagonal printed") ; k++ ; }
            for (int f = 0 ; f < 4 ; f++) if (Info [later [f]] >= 0) { v_check (v_pr_dbl (k, Info [later [f]]), "statistic printed") ; k++ ; }
            if (from == 13)
            {
                double n = Info [AMD_N], d = Info [AMD_NDIV], l = Info [AMD_NMULTSUBS_LDL], u = Info [AMD_NMULTSUBS_LU] ;
                v_check (v_pr_dbl (k, n + d + 2*l) && v_pr_dbl (k+1, d + 2*l) && v_pr_dbl (k+2, 9*d + 8*l) && v_pr_dbl (k+3, d + 2*u) && v_pr_dbl (k+4, 9*d + 8*u), "flop counts printed") ;
                v_check (v_pr_n () == k + 5, "nothing else is printed") ;
            }
            v_reach ("printed") ;
        }
        else v_check (v_pr_n () == k, "nothing but the version is printed") ;
    }
    /* the settings */
    v_pr_reset () ;
    double Control [AMD_CONTROL] ;
    amd_defaults (Control) ;
    Control [AMD_DENSE] = v_double ("dense", 0) ;
    Control [AMD_AGGRESSIVE] = what == 2 ;
    if (lng) amd_l_control (what == 3 ? NULL : Control) ; else amd_control (what == 3 ? NULL : Control) ;
    if (!none)
    {
        double dense = what == 3 ? AMD_DEFAULT_DENSE : Control [AMD_DENSE] ;
        int k = 3 ;
        v_check (v_pr_dbl (k++, dense), "dense row parameter printed") ;
        v_check (v_pr_has ("no rows treated as dense") == (dense < 0), "meaning of a negative parameter printed") ;
        if (dense >= 0) v_check (v_pr_dbl (k++, dense), "meaning of the dense row parameter printed") ;
        v_check (v_pr_int (k, lng ? 8 : 4) && v_pr_n () == k + 1, "size of integer printed, and nothing else") ;
        v_check (v_pr_has (what == 2 || (what == 3 && AMD_DEFAULT_AGGRESSIVE) ? "aggressive absorption:  yes" : "aggressive absorption:  no"), "absorption printed") ;
    }
    uncapture () ;
    v_reach ("ok") ;
}

/* COLAMD's report: the numbers printed are those of the statistics */
void h_pr_colamd (void)
{
    int lng = v_choose ("long", 2), sym = v_choose ("sym", 2), st = v_choose ("st", 13), none = v_choose ("none", 2) ;
    static const int code [] = { COLAMD_OK, COLAMD_OK_BUT_JUMBLED, COLAMD_ERROR_A_not_present, COLAMD_ERROR_p_not_present, COLAMD_ERROR_nrow_negative,
        COLAMD_ERROR_ncol_negative, COLAMD_ERROR_nnz_negative, COLAMD_ERROR_p0_nonzero, COLAMD_ERROR_A_too_small, COLAMD_ERROR_col_length_negative,
        COLAMD_ERROR_row_index_out_of_bounds, COLAMD_ERROR_out_of_memory } ;
    int istat [COLAMD_STATS] ;
    SuiteSparse_long lstat [COLAMD_STATS] ;
    int64_t s [COLAMD_STATS], w [6] ;
    for (int k = 0 ; k < COLAMD_STATS ; k++) s [k] = 0 ;
    if (st < 12) s [COLAMD_STATUS] = code [st] ;
    static const int f [] = { COLAMD_DENSE_ROW, COLAMD_DENSE_COL, COLAMD_DEFRAG_COUNT, COLAMD_INFO1, COLAMD_INFO2, COLAMD_INFO3 } ;
    for (int k = 0 ; k < 6 ; k++)
    {
        s [f [k]] = lng ? v_int (nm2 ("s", k, -1), INT64_MIN + 1, INT64_MAX) : v_int (nm2 ("s", k, -1), INT_MIN + 1, INT_MAX) ;
    }
    for (int k = 0 ; k < COLAMD_STATS ; k++) { lstat [k] = s [k] ; istat [k] = lng ? 0 : (int) s [k] ; }
    capture () ;
    if (none) SuiteSparse_config.printf_func = NULL ;
    if (lng) { if (sym) symamd_l_report (st == 12 ? NULL : lstat) ; else colamd_l_report (st == 12 ? NULL : lstat) ; }
    else { if (sym) symamd_report (st == 12 ? NULL : istat) ; else colamd_report (st == 12 ? NULL : istat) ; }
    uncapture () ;
    for (int k = 0 ; k < COLAMD_STATS ; k++) v_check (lstat [k] == s [k] && (lng || istat [k] == s [k]), "statistics not modified") ;
    if (none) { v_check (v_pr_calls () == 0, "nothing is printed") ; return ; }
    int k = 0, i1 = 3, i2 = 4, i3 = 5, n = 0 ;
    v_check (v_pr_int (0, COLAMD_MAIN_VERSION) && v_pr_int (1, COLAMD_SUB_VERSION), "version printed") ;
    v_check (v_pr_has (sym ? "symamd" : "colamd"), "method printed") ;
    if (st < 12) v_check (v_pr_has ("ERROR") == (code [st] < 0), "error or not printed") ;
    #define S(q) s [f [q]]
    switch (st)
    {
        case 0: w [0] = S (0) ; w [1] = S (1) ; w [2] = S (2) ; n = 3 ; break ;
        case 1: w [0] = S (i3) ; w [1] = S (i2) ; w [2] = S (i1) ; w [3] = S (0) ; w [4] = S (1) ; w [5] = S (2) ; n = 6 ; break ;
        case 4: case 5: case 6: case 7: w [0] = S (i1) ; n = 1 ; break ;
        case 8: case 9: w [0] = S (i1) ; w [1] = S (i2) ; n = 2 ; break ;
        case 10: w [0] = S (i2) ; w [1] = 0 ; w [2] = S (i3) - 1 ; w [3] = S (i1) ; n = 4 ; break ;
        default: break ;
    }
    for (int q = 0 ; q < n ; q++) v_check (v_pr_int (2 + q, w [q]), "statistic printed") ;
    v_check (v_pr_n () == 2 + n, "nothing else is printed") ;
    v_reach ("printed") ;
}

/* the solution check says in print what it says in its return code */
void h_pr_verdict (void)
{
    int n = 2, nrhs = v_choose ("nrhs", 3) + 1, level = v_choose ("level", 4), entry = v_choose ("entry", 4), order = v_choose ("order", 3) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->order = order ;
    SLIP_matrix *A = mk_A (n, 15, 0, "a"), *b = mk_b (n, nrhs, "b"), *B = NULL, *X = NULL ;
    OK (SLIP_matrix_copy (&B, SLIP_CSC, SLIP_MPZ, A, o)) ;
    v_mpz (B->x.mpz [entry], "changed") ;
    SLIP_LU_analysis *S = NULL ;
    SLIP_matrix *L = NULL, *U = NULL, *rhos = NULL ;
    int64_t *pinv = NULL ;
    capture () ;
    OK (SLIP_LU_analyze (&S, B, o)) ;
    v_check (v_pr_calls () == 0, "analysis prints nothing at level 0") ;
    o->print_level = level ;
    if (SLIP_LU_factorize (&L, &U, &rhos, &pinv, B, S, o) == SLIP_OK)
    {
        v_check (v_pr_calls () == 0, "factorization prints nothing") ;
        o->check = true ;
        SLIP_info r = SLIP_LU_solve (&X, b, A, L, U, rhos, S, pinv, o) ;
        if (level == 0) v_check (v_pr_calls () == 0, "nothing is printed at level 0") ;
        else
        {
            v_check (v_pr_has ("ERROR") == (r == SLIP_INCORRECT), "a wrong solution is reported in print") ;
            v_check (v_pr_has ("verified to be exact") == (r == SLIP_OK), "a right solution is reported in print") ;
            v_check (v_pr_n () == 0, "no numbers are printed") ;
        }
        if (r == SLIP_OK) v_reach ("right") ; else v_reach ("wrong") ;
    }
    uncapture () ;
    SLIP_LU_analysis_free (&S, o) ;
    SLIP_matrix_free (&B, o) ; SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&b, o) ; SLIP_matrix_free (&X, o) ;
    SLIP_matrix_free (&L, o) ; SLIP_matrix_free (&U, o) ; SLIP_matrix_free (&rhos, o) ;
    SLIP_FREE (pinv) ; SLIP_FREE (o) ;
    finish () ;
}

/* the analysis prints the statistics of the ordering it made, with the numbers it returns */
void h_pr_analyze (void)
{
    int order = v_choose ("order", 3), level = v_choose ("level", 4), n = 2 + v_choose ("n", 12), shape = v_choose ("shape", 8), seed = v_choose ("seed", 50) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->order = order ; o->print_level = level ;
    SLIP_matrix *A = mk_big (n, shape, seed, 1, 1, "a") ;
    SLIP_LU_analysis *S = NULL ;
    capture () ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    int got = v_pr_n () ;
    int64_t anz = A->p [n] ;
    if (level == 0 || order == SLIP_NO_ORDERING) v_check (v_pr_calls () == 0, "nothing is printed") ;
    else if (order == SLIP_COLAMD)
    {
        v_check (v_pr_has ("colamd") && v_pr_has ("OK"), "colamd report") ;
        v_check (got >= 6 && v_pr_int (got - 1, 10 * anz), "estimate printed") ;
    }
    else
    {
        double Control [AMD_CONTROL], Info [AMD_INFO] ;
        int64_t *q = malloc ((n+1) * sizeof (int64_t)) ;
        amd_l_defaults (Control) ;
        v_check (amd_l_order (n, A->p, A->i, q, Control, Info) >= 0, "amd") ;
        v_check (v_pr_has ("OK"), "amd report") ;
        int k = 0 ;
        while (k < got && !(v_pr_int (k, AMD_MAIN_VERSION) && v_pr_int (k+1, AMD_SUB_VERSION) && v_pr_int (k+2, AMD_SUBSUB_VERSION))) k++ ;
        int last = k ;
        for ( ; k < got ; k++) if (v_pr_int (k, AMD_MAIN_VERSION) && v_pr_int (k+1, AMD_SUB_VERSION)) last = k ;
        v_check (v_pr_dbl (last + 3, n) && v_pr_dbl (last + 4, anz), "order and entries of the matrix printed") ;
        v_check (v_pr_dbl (last + 11, Info [AMD_LNZ]), "entries of L printed") ;
        free (q) ;
    }
    v_reach ("ok") ;
    uncapture () ;
    SLIP_LU_analysis_free (&S, o) ;
    SLIP_matrix_free (&A, o) ; SLIP_FREE (o) ;
    finish () ;
}

/* an error behind many entries is reported at every level but 0 */
void h_pr_late (void)
{
    int kind = v_choose ("kind", 2), type = v_choose ("type", 5), level = v_choose ("level", 4), m = v_choose ("m", 20), n = v_choose ("n", 20), at = v_choose ("at", 64) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, kind, type, m, n, m*n, false, true, o)) ;
    for (int c = 0 ; c < m*n ; c++)
    {
        A->i [c] = c % m ;
        if (kind == SLIP_CSC) A->p [c / m + 1] = c + 1 ; else A->j [c] = c / m ;
    }
    if (kind == SLIP_TRIPLET) A->nz = m*n ;
    int k = m*n - 1 - at ;
    A->i [k] = v_int ("i", INT64_MIN, INT64_MAX) ;
    if (kind == SLIP_TRIPLET) A->j [k] = v_int ("j", INT64_MIN, INT64_MAX) ;
    bool good = A->i [k] == k % m && (kind == SLIP_CSC || A->j [k] == k / m) ;
    o->print_level = level ;
    capture () ;
    SLIP_info r = SLIP_matrix_check (A, o) ;
    v_check (good == (r == SLIP_OK), "the error is found") ;
    if (level == 0) v_check (v_pr_calls () == 0, "nothing is printed at level 0") ;
    else v_check ((v_pr_has ("invalid") || v_pr_has ("out of range") || v_pr_has ("duplicate")) == (r != SLIP_OK), "the error is printed") ;
    if (level == 1 && r != SLIP_OK && v_pr_n () == 2) place_named (A, v_pr_has ("duplicate")) ;
    if (r == SLIP_OK) v_reach ("valid") ; else v_reach ("invalid") ;
    uncapture () ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}
