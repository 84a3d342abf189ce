#include "common.h"

/* symbolic CSC pattern with cap entries: pointers and indices are solver variables.
   Distinct indices per column; sorted: increasing */
static void sym_pattern (SLIP_matrix *A, int n, int nz, int sorted)
{
    for (int j = 1 ; j < n ; j++)
    {
        A->p [j] = v_int (nm2 ("p", j, -1), 0, nz) ;
        v_assume (A->p [j] >= A->p [j-1]) ;
    }
    A->p [n] = nz ;
    for (int k = 0 ; k < nz ; k++) A->i [k] = v_int (nm2 ("i", k, -1), 0, n-1) ;
    for (int j = 0 ; j < n ; j++)
    {
        A->p [j] = v_fork (A->p [j]) ;
        A->p [j+1] = v_fork (A->p [j+1]) ;
        for (int64_t a = A->p [j] ; a < A->p [j+1] ; a++)
            if (sorted) { if (a > A->p [j]) v_assume (A->i [a-1] < A->i [a]) ; }
            else for (int64_t b = A->p [j] ; b < a ; b++) v_assume (A->i [b] != A->i [a]) ;
    }
}

/* ---------------------------------------------------------------- C07
   order 3: NULL options */
void h_analyze (void)
{
    int n = v_choose ("n", 5), nz = v_choose ("nz", 10), order = v_choose ("order", 4), sorted = v_choose ("sorted", 2) ;
    int type = v_choose ("type", 5), pr = v_choose ("pr", 2), fault = v_choose ("fault", 3) ;
    start () ;
    v_assume (nz <= n*n) ;
    SLIP_options *o = order == 3 ? NULL : mk_opt () ;
    if (o) { o->order = order ; o->print_level = pr ; }
    SLIP_matrix *A = NULL, *B = NULL ;
    SLIP_LU_analysis *S = NULL, *T = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, type, n, n, nz, false, type > 2, o)) ;
    sym_pattern (A, n, nz, sorted) ;
    int t0 = v_shadow (A->p, (n+1)*8), t1 = v_shadow (A->i, A->nzmax*8) ;
    if (fault)
    {
        int64_t before = v_outstanding () ;
        v_fault_on (fault) ;
        SLIP_info r = SLIP_LU_analyze (&S, A, o) ;
        v_fault_off () ;
        if (v_fault_fired ())
        {
            v_reach ("no-memory") ;
            v_check (r == SLIP_OUT_OF_MEMORY, "a failed request is reported") ;
            v_check (S == NULL, "no analysis on failure") ;
            v_check (v_outstanding () == before, "nothing leaked") ;
        }
        SLIP_LU_analysis_free (&S, o) ;
    }
    SLIP_info r = SLIP_LU_analyze (&S, A, o) ;
    v_check (r == SLIP_OK && S != NULL, "analysis of a valid pattern succeeds") ;
    v_reach ("ok") ;
    is_perm (S->q, n, "q is a permutation of the columns") ;
    for (int k = 0 ; k < n ; k++) v_obs_int ("q", S->q [k]) ;
    if (order == SLIP_NO_ORDERING) for (int k = 0 ; k < n ; k++) v_check (S->q [k] == k, "natural ordering is the identity") ;
    if (n > 0) v_check (S->lnz >= n && S->unz >= n, "size estimates at least n") ;
    v_check (v_same (t0) && v_same (t1), "pattern not modified") ;
    if (!fault)
    {
        /* another object with the same pattern, another type, more room */
        OK (SLIP_matrix_allocate (&B, SLIP_CSC, (type + 2) % 5, n, n, nz + 2, false, false, o)) ;
        for (int k = 0 ; k <= n ; k++) B->p [k] = A->p [k] ;
        for (int k = 0 ; k < nz ; k++) B->i [k] = A->i [k] ;
        for (int k = nz ; k < nz + 2 ; k++) B->i [k] = -1 ;
        OK (SLIP_LU_analyze (&T, B, o)) ;
        v_check (T->lnz == S->lnz && T->unz == S->unz, "estimates depend on the pattern only") ;
        for (int k = 0 ; k < n ; k++) v_check (T->q [k] == S->q [k], "ordering depends on the pattern only") ;
        SLIP_LU_analysis_free (&T, o) ;
        v_check (T == NULL, "handle cleared") ;
        SLIP_LU_analysis_free (&T, o) ;
        SLIP_matrix_free (&B, o) ;
    }
    OK (SLIP_LU_analysis_free (&S, o)) ;
    v_check (S == NULL, "handle cleared") ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* one row index of any value: success only for a pattern in range */
void h_analyze_bad (void)
{
    int n = 1 + v_choose ("n", 3), nz = 1 + v_choose ("nz", 4), order = 1 + v_choose ("order", 2), at = v_choose ("at", 4) ;
    start () ;
    v_assume (nz <= n*n && at < nz) ;
    SLIP_options *o = mk_opt () ;
    o->order = order ;
    SLIP_matrix *A = NULL ;
    SLIP_LU_analysis *S = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_MPZ, n, n, nz, false, true, o)) ;
    sym_pattern (A, n, nz, 1) ;
    int64_t v = v_int ("bad", INT64_MIN, INT64_MAX) ;
    v_assume (v < 0 || v >= n) ;
    A->i [at] = v ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_LU_analyze (&S, A, o) ;
    v_check (r == SLIP_INCORRECT_INPUT, "an ordering that cannot be computed is reported") ;
    v_check (S == NULL, "no analysis on failure") ;
    v_check (v_outstanding () == before, "nothing leaked") ;
    v_reach ("bad") ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* arrow, band, dense-row/column and disconnected patterns with a few symbolic entries:
   n up to 40 (AMD and COLAMD treat rows of more than 16 or 10 sqrt (n) entries as dense) */
void h_analyze_big (void)
{
    int shape = v_choose ("shape", 6), n = 12 + 7 * v_choose ("size", 5), order = 1 + v_choose ("order", 2) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->order = order ;
    SLIP_matrix *A = NULL ;
    SLIP_LU_analysis *S = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_INT64, n, n, n*n, false, true, o)) ;
    int64_t c = 0, x [3] ;
    for (int k = 0 ; k < 3 ; k++) x [k] = v_int (nm2 ("x", k, -1), 0, n-1) ;
    for (int j = 0 ; j < n ; j++)
    {
        A->p [j] = c ;
        for (int i = 0 ; i < n ; i++)
        {
            int in ;
            switch (shape)
            {
                case 0: in = i == j || i == 0 || j == 0 ; break ;
                case 1: in = i - j <= 1 && j - i <= 2 ; break ;
                case 2: in = i < 2 || i == j ; break ;             /* dense rows */
                case 3: in = j < 2 || (i + j) % 5 == 0 ; break ;   /* dense columns */
                case 4: in = i / 3 == j / 3 && j % 4 ; break ;     /* blocks, empty columns */
                default: in = (i*i + 3*j) % 7 == 0 ; break ;
            }
            if (in) A->i [c++] = i ;
        }
        if (shape >= 1 && shape <= 3 && (j == 3 || j == 7))
        {
            /* one more entry anywhere in the column */
            int64_t v = x [j == 7] ;
            int dup = 0 ;
            for (int64_t t = A->p [j] ; t < c ; t++) if (A->i [t] == v) dup = 1 ;
            if (!dup) A->i [c++] = v ;
        }
    }
    A->p [n] = c ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    v_reach ("ok") ;
    int seen [64] ;
    for (int k = 0 ; k < n ; k++) seen [k] = 0 ;
    for (int k = 0 ; k < n ; k++)
    {
        v_check (S->q [k] >= 0 && S->q [k] < n, "q in range") ;
        v_check (!seen [v_fork (S->q [k])], "q is a permutation of the columns") ;
        seen [S->q [k]] = 1 ;
    }
    v_check (S->lnz >= n && S->unz >= n, "size estimates at least n") ;
    SLIP_LU_analysis_free (&S, o) ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* patterns from a fixed sequence, one entry at a symbolic row (no repeats) */
void h_analyze_rnd (void)
{
    int kind = v_choose ("kind", 6), seed = v_choose ("seed", 1000), n = v_choose ("n", 48), dens = v_choose ("dens", 101) ;
    int order = v_choose ("order", 3) ;
    v_assume (n > 0) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->order = order ;
    SLIP_matrix *A = NULL ;
    SLIP_LU_analysis *S = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_INT64, n, n, n*n + 1, false, true, o)) ;
    rnd_pattern (A->p, A->i, n, n, kind, seed, dens, 1) ;
    int64_t *last = &A->i [A->p [n/4 + 1] - 1] ;
    *last = v_fork (*last) ;
    for (int64_t t = A->p [n/4] ; t < A->p [n/4 + 1] - 1 ; t++) v_assume (A->i [t] != *last) ;
    OK (SLIP_LU_analyze (&S, A, o)) ;
    v_reach ("ok") ;
    int seen [64] ;
    for (int k = 0 ; k < n ; k++) seen [k] = 0 ;
    for (int k = 0 ; k < n ; k++)
    {
        v_check (S->q [k] >= 0 && S->q [k] < n, "q in range") ;
        v_check (!seen [v_fork (S->q [k])], "q is a permutation of the columns") ;
        seen [S->q [k]] = 1 ;
    }
    v_check (S->lnz >= n && S->unz >= n, "size estimates at least n") ;
    SLIP_LU_analysis_free (&S, o) ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* C26: a matrix that claims any number of entries; its sizes must not wrap.  No entry may be read
   unless the whole request could be satisfied */
void h_analyze_huge (void)
{
    int n = v_choose ("n", 3), order = v_choose ("order", 3) ;
    OK (SLIP_initialize ()) ;
    v_assume (n > 0) ;
    SLIP_options *o = SLIP_create_default_options () ;
    o->order = order ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_INT64, n, n, 2, false, true, o)) ;
    int64_t anz = v_int ("anz", (int64_t) 1 << 18, INT64_MAX) ;
    A->p [n] = anz ;
    A->nzmax = anz ;
    int64_t before = v_outstanding () ;
    SLIP_LU_analysis *S = NULL ;
    if (order == SLIP_AMD)
    {
        /* AMD looks at the indices up to the first invalid one before it asks for memory */
        A->i [0] = -1 ;
    }
    v_limit (1 << 20) ;
    SLIP_info r = SLIP_LU_analyze (&S, A, o) ;
    if (order == SLIP_NO_ORDERING)
    {
        if (r == SLIP_OK)
        {
            v_reach ("ok") ;
            v_check (S->lnz >= n && S->unz >= n && S->lnz <= n*n + n && S->unz <= n*n + n, "estimates are sensible") ;
        }
        else { v_reach ("refused") ; v_check (r == SLIP_OUT_OF_MEMORY && anz > INT64_MAX / 64, "only sizes that overflow are refused") ; }
    }
    else
    {
        v_check (r == SLIP_OUT_OF_MEMORY || (order == SLIP_AMD && r == SLIP_INCORRECT_INPUT), "refused") ;
        v_reach ("refused") ;
    }
    if (r != SLIP_OK) v_check (S == NULL && v_outstanding () == before, "nothing left behind") ;
    SLIP_LU_analysis_free (&S, o) ;
    A->nzmax = 2 ;
    A->p [n] = 0 ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    OK (SLIP_finalize ()) ;
}
