/* AMD: C21, C22, C23 */
#include "common.h"
#include "amd.h"
#include <math.h>
#define NMAX 40
#ifndef CLEAN
#define CLEAN(j,k,n) ((j) + (n)*(k))
#endif

void amd_preprocess (int n, const int Ap [], const int Ai [], int Rp [], int Ri [], int W [], int Flag []) ;
void amd_l_preprocess (int64_t n, const int64_t Ap [], const int64_t Ai [], int64_t Rp [], int64_t Ri [], int64_t W [], int64_t Flag []) ;

#define Int int
#define F(x) i_##x
#define AMD(x) amd_##x
#define IMIN INT32_MIN
#define IMAX INT32_MAX
#define HUGE_NZ(z) 0
#include "amd_t.h"
#undef Int
#undef F
#undef AMD
#undef IMIN
#undef IMAX
#undef HUGE_NZ
#define Int int64_t
#define F(x) l_##x
#define AMD(x) amd_l_##x
#define IMIN INT64_MIN
#define IMAX INT64_MAX
#define HUGE_NZ(z) ((uint64_t) (z) >= UINT64_MAX / 8)
#include "amd_t.h"

void h_valid_i (void) { i_valid () ; }
void h_valid_l (void) { l_valid () ; }
void h_codes_i (void) { i_codes () ; }
void h_codes_l (void) { l_codes () ; }
void h_huge_i (void) { i_huge () ; }
void h_huge_l (void) { l_huge () ; }

static const double alphas [] = { 10, -1, 0, 0.5, 3.7, 1e10, 1e300 } ;

/* every pattern: mode 0 sorted without duplicates, 1 any rows in any order */
void h_order (void)
{
    int n = v_choose ("n", 5), nz = v_choose ("nz", 17), mode = v_choose ("mode", 2), ctl = v_choose ("ctl", 4) ;
    v_assume (n > 0 && (mode == 1 || nz <= n*n)) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((nz+1) * sizeof (int64_t)), P [8], Q [8] ;
    int *p4 = malloc ((n+1) * sizeof (int)), *i4 = malloc ((nz+1) * sizeof (int)), P4 [8] ;
    double Info [AMD_INFO], Info4 [AMD_INFO], Control [AMD_CONTROL], *C = Control ;
    char T [64] ;
    l_pattern (p, i, n, nz, mode) ;
    for (int j = 0 ; j <= n ; j++) p4 [j] = p [j] ;
    for (int k = 0 ; k < nz ; k++) i4 [k] = i [k] ;
    l_table (T, n, p, i) ;
    amd_l_defaults (Control) ;
    if (ctl == 0) C = NULL ;
    else { Control [AMD_DENSE] = alphas [ctl % 3] ; Control [AMD_AGGRESSIVE] = ctl == 3 ? 0 : 1 ; }
    int t0 = v_shadow (p, (n+1)*8), t1 = v_shadow (i, nz*8), t2 = v_shadow (Control, sizeof (Control)) ;
    int t3 = v_shadow (p4, (n+1)*4), t4 = v_shadow (i4, nz*4) ;
    int want = l_ref_valid (n, n, p, i) ;
    for (int k = 0 ; k < AMD_INFO ; k++) Info [k] = Info4 [k] = 77 ;
    int64_t before = v_outstanding () ;
    v_check (amd_l_order (n, p, i, P, C, Info) == want, "long version succeeds") ;
    v_check (amd_order (n, p4, i4, P4, C, Info4) == want, "int version succeeds") ;
    v_check (v_outstanding () == before, "nothing leaked") ;
    v_check (v_same (t0) && v_same (t1) && v_same (t2) && v_same (t3) && v_same (t4), "input not modified") ;
    v_check (Info [AMD_STATUS] == want && Info4 [AMD_STATUS] == want, "status statistic") ;
    if (want) v_reach ("jumbled") ; else v_reach ("ok") ;
    l_judge (n, T, want, nz, P, Info, C ? C [AMD_DENSE] : 10) ;
    for (int k = 0 ; k < n ; k++) v_check (P [k] == P4 [k], "int and long versions agree") ;
    for (int k = 0 ; k < n ; k++) v_obs_int ("P", P [k]) ;
    for (int k = 0 ; k < AMD_INFO ; k++)
        if (k == AMD_MEMORY) v_check (Info [k] == 2 * Info4 [k], "memory in bytes") ;
        else v_check (Info [k] == Info4 [k], "statistics of both versions agree") ;
    /* statistics are optional and do not change the result */
    v_check (amd_l_order (n, p, i, Q, C, NULL) == want, "without statistics") ;
    for (int k = 0 ; k < n ; k++) v_check (P [k] == Q [k], "same ordering without statistics") ;
    free (p) ; free (i) ; free (p4) ; free (i4) ;
}

/* C23: R = pattern of A', sorted, no duplicates; and the jumbled matrix is ordered as R */
void h_pre (void)
{
    int n = v_choose ("n", 5), nz = v_choose ("nz", 9), ver = v_choose ("ver", 2) ;
    v_assume (n > 0) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((nz+1) * sizeof (int64_t)) ;
    int64_t *Rp = malloc ((n+1) * sizeof (int64_t)), *Ri = malloc ((nz ? nz : 1) * sizeof (int64_t)), W [8], Fl [8] ;
    int *p4 = malloc ((n+1) * sizeof (int)), *i4 = malloc ((nz ? nz : 1) * sizeof (int)) ;
    int *Rp4 = malloc ((n+1) * sizeof (int)), *Ri4 = malloc ((nz ? nz : 1) * sizeof (int)), W4 [8], Fl4 [8] ;
    char T [64] ;
    l_pattern (p, i, n, nz, 1) ;
    for (int j = 0 ; j <= n ; j++) p4 [j] = p [j] ;
    for (int k = 0 ; k < nz ; k++) i4 [k] = i [k] ;
    l_table (T, n, p, i) ;
    int t0 = v_shadow (p, (n+1)*8), t1 = v_shadow (i, nz*8), t3 = v_shadow (p4, (n+1)*4), t4 = v_shadow (i4, nz*4) ;
    if (ver)
    {
        amd_preprocess (n, p4, i4, Rp4, Ri4, W4, Fl4) ;
        v_check (v_same (t3) && v_same (t4), "input not modified") ;
        for (int j = 0 ; j <= n ; j++) Rp [j] = Rp4 [j] ;
        for (int k = 0 ; k < nz && k < Rp [n] ; k++) Ri [k] = Ri4 [k] ;
    }
    else amd_l_preprocess (n, p, i, Rp, Ri, W, Fl) ;
    v_check (v_same (t0) && v_same (t1), "input not modified") ;
    int c = 0 ;
    v_check (Rp [0] == 0, "first pointer") ;
    for (int j = 0 ; j < n ; j++)
    {
        for (int k = 0 ; k < n ; k++) if (T [j + n*k]) { v_check (c < nz && Ri [c] == k, "column j of R is row j of A, sorted") ; c++ ; }
        v_check (Rp [j+1] == c, "pointers of R") ;
    }
    if (c < nz) v_reach ("dup") ;
    free (p) ; free (i) ; free (Rp) ; free (Ri) ; free (p4) ; free (i4) ; free (Rp4) ; free (Ri4) ;
    v_reach ("ok") ;
}

/* C23: a jumbled pattern is ordered as its transpose, sorted and without duplicates */
void h_jumbled (void)
{
    int n = v_choose ("n", 5), nz = v_choose ("nz", 9) ;
    v_assume (n > 0) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((nz+1) * sizeof (int64_t)), P [8], Q [8] ;
    int64_t *Rp = malloc ((n+1) * sizeof (int64_t)), *Ri = malloc ((nz ? nz : 1) * sizeof (int64_t)) ;
    int *p4 = malloc ((n+1) * sizeof (int)), *i4 = malloc ((nz ? nz : 1) * sizeof (int)), P4 [8] ;
    double Info [AMD_INFO], Info2 [AMD_INFO] ;
    char T [64] ;
    l_pattern (p, i, n, nz, 1) ;
    for (int j = 0 ; j <= n ; j++) p4 [j] = p [j] ;
    for (int k = 0 ; k < nz ; k++) i4 [k] = i [k] ;
    l_table (T, n, p, i) ;
    v_assume (l_ref_valid (n, n, p, i) == 1) ;
    int c = 0 ;
    Rp [0] = 0 ;
    for (int j = 0 ; j < n ; j++)
    {
        for (int k = 0 ; k < n ; k++) if (T [CLEAN (j, k, n)]) Ri [c++] = k ;
        Rp [j+1] = c ;
    }
    int t0 = v_shadow (p, (n+1)*8), t1 = v_shadow (i, nz*8), t3 = v_shadow (p4, (n+1)*4), t4 = v_shadow (i4, nz*4) ;
    v_check (amd_l_order (n, p, i, P, NULL, Info) == 1 && amd_order (n, p4, i4, P4, NULL, NULL) == 1, "jumbled") ;
    v_check (amd_l_order (n, Rp, Ri, Q, NULL, Info2) == 0, "clean") ;
    for (int k = 0 ; k < n ; k++) v_check (P [k] == Q [k] && P4 [k] == Q [k], "ordered as the clean pattern") ;
    for (int k = AMD_N ; k < AMD_INFO ; k++) if (k != AMD_MEMORY) v_check (Info [k] == Info2 [k], "same statistics as the clean pattern") ;
    v_check (v_same (t0) && v_same (t1) && v_same (t3) && v_same (t4), "input not modified") ;
    free (p) ; free (i) ; free (Rp) ; free (Ri) ; free (p4) ; free (i4) ;
    v_reach ("ok") ;
}

static void order_both (int n, const int64_t *p, const int64_t *i, double dense, int aggr)
{
    int64_t c = p [n], *P = malloc (n * sizeof (int64_t)) ;
    int *p4 = malloc ((n+1) * sizeof (int)), *i4 = malloc ((c ? c : 1) * sizeof (int)), *P4 = malloc (n * sizeof (int)) ;
    double Info [AMD_INFO], Info4 [AMD_INFO], Control [AMD_CONTROL] ;
    static char T [NMAX*NMAX] ;
    for (int j = 0 ; j <= n ; j++) p4 [j] = p [j] ;
    for (int k = 0 ; k < c ; k++) i4 [k] = i [k] ;
    l_table (T, n, p, i) ;
    int want = l_ref_valid (n, n, p, i) ;
    amd_defaults (Control) ;
    Control [AMD_DENSE] = dense ;
    Control [AMD_AGGRESSIVE] = aggr ;
    v_check (amd_l_order (n, p, i, P, Control, Info) == want, "long version succeeds") ;
    v_check (amd_order (n, p4, i4, P4, Control, Info4) == want, "int version succeeds") ;
    l_judge (n, T, want, c, P, Info, dense) ;
    for (int k = 0 ; k < n ; k++) v_check (P [k] == P4 [k], "int and long versions agree") ;
    for (int k = 0 ; k < AMD_INFO ; k++)
        if (k == AMD_MEMORY) v_check (Info [k] == 2 * Info4 [k], "memory in bytes") ;
        else v_check (Info [k] == Info4 [k], "statistics of both versions agree") ;
    for (int k = 0 ; k < n ; k++) v_obs_int ("P", P [k]) ;
    free (P) ; free (P4) ; free (p4) ; free (i4) ;
    if (Info [AMD_NCMPA] > 0) v_reach ("collected") ;
    v_reach ("ok") ;
}

/* larger patterns with entries at symbolic places; dense rows */
void h_order_big (void)
{
    int shape = v_choose ("shape", 6), n = 12 + 7 * v_choose ("size", 4), al = v_choose ("alpha", 7), aggr = v_choose ("aggr", 2) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((n*n + 2) * sizeof (int64_t)) ;
    int64_t x [2] ;
    for (int k = 0 ; k < 2 ; k++) x [k] = v_int (nm2 ("x", k, -1), 0, n-1) ;
    int64_t c = 0 ;
    for (int j = 0 ; j < n ; j++)
    {
        p [j] = c ;
        for (int r = 0 ; r < n ; r++)
        {
            int in ;
            switch (shape)
            {
                case 0: in = r == j || r == 0 || j == 0 ; break ;
                case 1: in = r - j <= 1 && j - r <= 2 ; break ;
                case 2: in = r < 2 || r == j ; break ;
                case 3: in = (j < 2 && r < 20) || (r + j) % 5 == 0 ; break ;
                case 4: in = r / 3 == j / 3 && j % 4 ; break ;
                default: in = (r*r + 3*j) % 7 == 0 ; break ;
            }
            if (in) i [c++] = r ;
        }
        if (j == 3 || j == 7) i [c++] = x [j == 7] ;
    }
    p [n] = c ;
    order_both (n, p, i, alphas [al], aggr) ;
    free (p) ; free (i) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

/* patterns from a fixed sequence, entries at symbolic rows */
void h_order_rnd (void)
{
    int kind = v_choose ("kind", 6), seed = v_choose ("seed", 1000), n = v_choose ("n", NMAX), dens = v_choose ("dens", 101) ;
    int nsym = v_choose ("nsym", 3), al = v_choose ("alpha", 7), aggr = v_choose ("aggr", 2) ;
    v_assume (n > 0) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((n*n + 2) * sizeof (int64_t)) ;
    rnd_pattern (p, i, n, n, kind, seed, dens, nsym) ;
    order_both (n, p, i, alphas [al], aggr) ;
    free (p) ; free (i) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

/* printing and defaults accept NULL and touch nothing */
void h_print (void)
{
    double Control [AMD_CONTROL], Info [AMD_INFO] ;
    int ver = v_choose ("ver", 2) ;
    int mask = v_choose ("mask", 32) ;
    for (int k = 0 ; k < AMD_INFO ; k++) Info [k] = mask >> k % 5 & 1 ? -1 : 3 + k ;
    Info [AMD_STATUS] = v_choose ("status", 4) - 2 ;
    int t1 = v_shadow (Info, sizeof (Info)) ;
    if (ver) { amd_defaults (Control) ; amd_defaults (NULL) ; amd_control (Control) ; amd_control (NULL) ; amd_info (Info) ; amd_info (NULL) ; }
    else { amd_l_defaults (Control) ; amd_l_defaults (NULL) ; amd_l_control (Control) ; amd_l_control (NULL) ; amd_l_info (Info) ; amd_l_info (NULL) ; }
    v_check (Control [AMD_DENSE] == 10 && Control [AMD_AGGRESSIVE] == 1, "defaults") ;
    for (int k = 2 ; k < AMD_CONTROL ; k++) v_check (Control [k] == 0, "unused settings are zero") ;
    v_check (v_same (t1), "statistics not modified") ;
    v_reach ("ok") ;
}
