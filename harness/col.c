/* COLAMD: C24, C25 */
#include "common.h"
#include "colamd.h"
#include <math.h>
#define NMAX 40

#define colamd_main colamd
#define symamd_main symamd
#define colamd_l_main colamd_l
#define symamd_l_main symamd_l

#define Int int
#define F(x) i_##x
#define COL(x) colamd_##x
#define SYM(x) symamd_##x
#define IMIN INT32_MIN
#define IMAX INT32_MAX
#include "col_t.h"
#undef Int
#undef F
#undef COL
#undef SYM
#undef IMIN
#undef IMAX
#define Int int64_t
#define F(x) l_##x
#define COL(x) colamd_l_##x
#define SYM(x) symamd_l_##x
#define IMIN INT64_MIN
#define IMAX INT64_MAX
#include "col_t.h"

void h_bad_i (void) { i_bad () ; }
void h_bad_l (void) { l_bad () ; }
void h_rec_i (void) { i_rec () ; }
void h_rec_l (void) { l_rec () ; }

static const double kn [] = { 10, 0, -1, 0.5, 3.7, 1e10, 1e300 } ;

static void perm_ok (int n, const int64_t *q, int *pos)
{
    for (int k = 0 ; k < n ; k++) pos [k] = -1 ;
    for (int k = 0 ; k < n ; k++)
    {
        v_check (q [k] >= 0 && q [k] < n, "permutation in range") ;
        v_check (pos [v_fork (q [k])] == -1, "a permutation") ;
        pos [q [k]] = k ;
    }
}

/* statistics: dense and empty rows and columns, from the documentation.  T: m-by-n 0/1 table.
   Only called with non-negative knobs */
static void stats_ok (int m, int n, const char *T, double kr, double kc, const int64_t *stats, const int *pos)
{
    double thr = kr * sqrt ((double) n), thc = kc * sqrt ((double) (m < n ? m : n)) ;
    int killed [NMAX], rk [NMAX], nc = 0, nr = 0, sure = 1 ;
    if (thr < 16) thr = 16 ;
    if (thc < 16) thc = 16 ;
    for (int j = 0 ; j < n ; j++)
    {
        int d = 0 ;
        for (int i = 0 ; i < m ; i++) d += T [i + m*j] ;
        killed [j] = d == 0 || d > thc ;
    }
    for (int i = 0 ; i < m ; i++)
    {
        int d = 0, d0 = 0 ;
        for (int j = 0 ; j < n ; j++) { d0 += T [i + m*j] ; if (!killed [j]) d += T [i + m*j] ; }
        rk [i] = d == 0 || d > thr ;
        if ((d > thr) != (d0 > thr)) sure = 0 ;
        nr += rk [i] ;
    }
    for (int j = 0 ; j < n ; j++)
    {
        int alive = 0 ;
        for (int i = 0 ; i < m ; i++) if (T [i + m*j] && !rk [i]) alive = 1 ;
        if (!alive) killed [j] = 1 ;
        nc += killed [j] ;
    }
    if (!sure) return ;
    if (nr) v_reach ("rows-ignored") ;
    if (nc) v_reach ("cols-ignored") ;
    v_check (stats [COLAMD_DENSE_ROW] == nr, "number of ignored rows") ;
    v_check (stats [COLAMD_DENSE_COL] == nc, "number of ignored columns") ;
    for (int j = 0 ; j < n ; j++) if (killed [j]) v_check (pos [j] >= n - nc, "ignored columns are ordered last") ;
}

static void table (char *T, int m, int n, const int64_t *p, const int64_t *i)
{
    for (int k = 0 ; k < m*n ; k++) T [k] = 0 ;
    for (int j = 0 ; j < n ; j++) for (int64_t t = p [j] ; t < p [j+1] ; t++) T [v_fork (i [t]) + m*j] = 1 ;
}

/* one column ordering, both versions, workspace exactly Alen */
static void col_one (int m, int n, const int64_t *p, const int64_t *i, const char *T, int tight, const double *kk)
{
    int nz = (int) p [n], pos [NMAX] ;
    int64_t s [COLAMD_STATS], *q = malloc ((n+1) * sizeof (int64_t)) ;
    int s4 [COLAMD_STATS], *q4 = malloc ((n+1) * sizeof (int)) ;
    double knobs [COLAMD_KNOBS], *K = NULL ;
    if (kk) { colamd_l_set_defaults (knobs) ; knobs [0] = kk [0] ; knobs [1] = kk [1] ; knobs [2] = kk [2] ; K = knobs ; }
    int t2 = v_shadow (knobs, kk ? sizeof (knobs) : 0) ;
    size_t len = colamd_l_recommended (nz, m, n), len4 = colamd_recommended (nz, m, n) ;
    v_check (len == len4 && len > 0, "recommended size") ;
    if (tight) len = 2*nz + 6*(n+1) + 4*(m+1) + n ;
    int64_t *A = malloc (len * sizeof (int64_t)) ;
    int *A4 = malloc (len * sizeof (int)) ;
    for (int k = 0 ; k < nz ; k++) { A [k] = i [k] ; A4 [k] = (int) i [k] ; }
    for (int j = 0 ; j <= n ; j++) { q [j] = p [j] ; q4 [j] = (int) p [j] ; }
    int64_t jc, jr ;
    int jum = l_jumbled (n, i, p, &jc, &jr) ;
    v_check (colamd_l (m, n, len, A, q, K, s) == 1, "long version succeeds") ;
    v_check (colamd (m, n, (int) len, A4, q4, K, s4) == 1, "int version succeeds") ;
    v_check (s [COLAMD_STATUS] == (jum ? 1 : 0), "status") ;
    v_reach (jum ? "jumbled" : "ok") ;
    perm_ok (n, q, pos) ;
    for (int k = 0 ; k < n ; k++) { v_check (q [k] == q4 [k], "int and long versions agree") ; v_obs_int ("q", q [k]) ; }
    for (int k = 0 ; k <= 6 ; k++) v_check (s [k] == s4 [k], "statistics of both versions agree") ;
    v_check (s [COLAMD_DEFRAG_COUNT] >= 0, "garbage collections") ;
    if (!kk) stats_ok (m, n, T, 10, 10, s, pos) ;
    else if (kk [0] >= 0 && kk [1] >= 0) stats_ok (m, n, T, kk [0], kk [1], s, pos) ;
    v_check (v_same (t2), "knobs not modified") ;
    free (A) ; free (A4) ; free (q) ; free (q4) ;
}

static void sym_one (int n, const int64_t *p, const int64_t *i, const char *T, const double *kk)
{
    int nz = (int) p [n], pos [NMAX] ;
    int64_t s [COLAMD_STATS], *q = malloc ((n+1) * sizeof (int64_t)) ;
    int s4 [COLAMD_STATS], *q4 = malloc ((n+1) * sizeof (int)) ;
    int *p4 = malloc ((n+1) * sizeof (int)), *i4 = malloc ((nz+1) * sizeof (int)) ;
    double knobs [COLAMD_KNOBS], *K = NULL ;
    if (kk) { colamd_l_set_defaults (knobs) ; knobs [0] = kk [0] ; knobs [1] = kk [1] ; knobs [2] = kk [2] ; K = knobs ; }
    for (int j = 0 ; j <= n ; j++) p4 [j] = p [j] ;
    for (int k = 0 ; k < nz ; k++) i4 [k] = i [k] ;
    int t0 = v_shadow (p, (n+1)*8), t1 = v_shadow (i, nz*8), t3 = v_shadow (p4, (n+1)*4), t4 = v_shadow (i4, nz*4) ;
    int t2 = v_shadow (knobs, kk ? sizeof (knobs) : 0) ;
    int64_t jc, jr, before = v_outstanding () ;
    int jum = l_jumbled (n, i, p, &jc, &jr) ;
    v_check (symamd_l (n, (int64_t *) i, (int64_t *) p, q, K, s, l_talloc, free) == 1, "long version succeeds") ;
    v_check (symamd (n, i4, p4, q4, K, s4, i_talloc, free) == 1, "int version succeeds") ;
    v_check (v_outstanding () == before, "nothing leaked") ;
    v_check (v_same (t0) && v_same (t1) && v_same (t2) && v_same (t3) && v_same (t4), "input not modified") ;
    v_check (s [COLAMD_STATUS] == (jum ? 1 : 0), "status") ;
    perm_ok (n, q, pos) ;
    for (int k = 0 ; k < n ; k++) { v_check (q [k] == q4 [k], "int and long versions agree") ; v_obs_int ("q", q [k]) ; }
    for (int k = 0 ; k <= 6 ; k++) v_check (s [k] == s4 [k], "statistics of both versions agree") ;
    v_check (s [0] == s [1], "rows and columns ignored together") ;
    /* only the strictly lower triangle counts; empty ones are ignored and last */
    int none = 0, dense = 0 ;
    double kd = kk ? kk [0] : 10, th = kd * sqrt ((double) n) ;
    if (th < 16) th = 16 ;
    for (int j = 0 ; j < n ; j++)
    {
        int d = 0 ;
        for (int r = 0 ; r < n ; r++) d += r > j ? T [r + n*j] : r < j ? T [j + n*r] : 0 ;
        if (d == 0) { none++ ; v_check (pos [j] >= n - s [1], "empty columns are ordered last") ; }
        if (d > 16) dense = 1 ;
    }
    v_check (s [0] >= none, "number of ignored columns") ;
    /* n = 2: the only row of the intermediate matrix is full, and counts as dense */
    if (kd >= 0 && !dense && n != 2) v_check (s [0] == none, "number of ignored columns") ;
    v_reach ("sym") ;
    free (p4) ; free (i4) ; free (q) ; free (q4) ;
}

void h_col (void)
{
    int m = v_choose ("m", 5), n = v_choose ("n", 5), nz = v_choose ("nz", 13), mode = v_choose ("mode", 2) ;
    int tight = v_choose ("tight", 2), ctl = v_choose ("ctl", 4) ;
    static const double kt [3][3] = { { -1, -1, 1 }, { 0, 1e300, 0 }, { 3.7, 0, 1 } } ;
    v_assume ((m > 0 && n > 0) || nz == 0) ;
    v_assume (mode == 1 || nz <= m*n) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((nz+1) * sizeof (int64_t)) ;
    char T [32] ;
    if (n == 0) p [0] = 0 ; else l_pattern (p, i, m, n, nz, mode) ;
    table (T, m, n, p, i) ;
    col_one (m, n, p, i, T, tight, ctl ? kt [ctl-1] : NULL) ;
    free (p) ; free (i) ;
}

void h_sym (void)
{
    int n = v_choose ("n", 5), nz = v_choose ("nz", 13), mode = v_choose ("mode", 2), ctl = v_choose ("ctl", 4) ;
    static const double kt [3][3] = { { -1, -1, 1 }, { 0, 1e300, 0 }, { 3.7, 0, 1 } } ;
    v_assume (n > 0 || nz == 0) ;
    v_assume (mode == 1 || nz <= n*n) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((nz+1) * sizeof (int64_t)) ;
    char T [32] ;
    if (n == 0) p [0] = 0 ; else l_pattern (p, i, n, n, nz, mode) ;
    table (T, n, n, p, i) ;
    sym_one (n, p, i, T, ctl ? kt [ctl-1] : NULL) ;
    free (p) ; free (i) ;
}

/* larger patterns with entries at symbolic places; dense rows and columns */
void h_col_big (void)
{
    int shape = v_choose ("shape", 6), n = 12 + 7 * v_choose ("size", 4), tight = v_choose ("tight", 2), kr = v_choose ("kr", 7), kc = v_choose ("kc", 7) ;
    int m = shape == 4 ? n - 4 : shape == 5 ? n + 6 : n, sym = v_choose ("sym", 2) ;
    if (m > NMAX) m = NMAX ;
    if (sym) m = n ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((m*n + 2) * sizeof (int64_t)) ;
    static char T [NMAX*NMAX] ;
    int64_t x [2], c = 0 ;
    for (int k = 0 ; k < 2 ; k++) x [k] = v_int (nm2 ("x", k, -1), 0, m-1) ;
    for (int j = 0 ; j < n ; j++)
    {
        p [j] = c ;
        for (int r = 0 ; r < m ; r++)
        {
            int in ;
            switch (shape)
            {
                case 0: in = r == j || r == 0 || j == 0 ; break ;
                case 1: in = r - j <= 1 && j - r <= 2 ; break ;
                case 2: in = r < 2 || r == j ; break ;
                case 3: in = (j < 2 && r < 20) || (r + j) % 5 == 0 ; break ;
                case 4: in = r / 3 == j / 3 && j % 4 ; break ;
                default: in = (r*r + 3*j) % 7 == 0 ; break ;
            }
            if (in) i [c++] = r ;
        }
        if (j == 3 || j == 7) i [c++] = x [j == 7] ;
    }
    p [n] = c ;
    table (T, m, n, p, i) ;
    double kk [3] = { kn [kr], kn [kc], tight } ;
    if (sym) sym_one (n, p, i, T, kk) ;
    else col_one (m, n, p, i, T, tight, kk) ;
    free (p) ; free (i) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
}

/* patterns from a fixed sequence, entries at symbolic rows */
void h_col_rnd (void)
{
    int kind = v_choose ("kind", 6), seed = v_choose ("seed", 1000), m = v_choose ("m", NMAX), n = v_choose ("n", NMAX), dens = v_choose ("dens", 101) ;
    int nsym = v_choose ("nsym", 3), tight = v_choose ("tight", 2), kr = v_choose ("kr", 8), kc = v_choose ("kc", 7), sym = v_choose ("sym", 2) ;
    int aggr = v_choose ("aggr", 2) ;
    v_assume (m > 0 && n > 0 && (!sym || m == n)) ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((m*n + 2) * sizeof (int64_t)) ;
    static char T [NMAX*NMAX] ;
    rnd_pattern (p, i, m, n, kind, seed, dens, nsym) ;
    table (T, m, n, p, i) ;
    double kk [3] = { kn [kr < 7 ? kr : 0], kn [kc], aggr } ;
    if (sym) sym_one (n, p, i, T, kr == 7 ? NULL : kk) ;
    else col_one (m, n, p, i, T, tight, kr == 7 ? NULL : kk) ;
    free (p) ; free (i) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
    v_reach ("ok") ;
}

void h_report (void)
{
    int s4 [COLAMD_STATS] ;
    int64_t s [COLAMD_STATS] ;
    int which = v_choose ("which", 4), st = v_choose ("st", 14), null = v_choose ("null", 2) ;
    for (int k = 0 ; k < COLAMD_STATS ; k++) s4 [k] = s [k] = k ;
    s4 [COLAMD_STATUS] = s [COLAMD_STATUS] = st == 13 ? -999 : st - 11 ;
    int t0 = v_shadow (s, sizeof (s)), t1 = v_shadow (s4, sizeof (s4)) ;
    switch (which)
    {
        case 0: colamd_report (null ? NULL : s4) ; break ;
        case 1: colamd_l_report (null ? NULL : s) ; break ;
        case 2: symamd_report (null ? NULL : s4) ; break ;
        default: symamd_l_report (null ? NULL : s) ; break ;
    }
    v_check (v_same (t0) && v_same (t1), "statistics not modified") ;
    v_reach ("ok") ;
}

void h_huge_i (void) { i_huge () ; }
void h_huge_l (void) { l_huge () ; }
void h_shuge_i (void) { i_shuge () ; }
void h_shuge_l (void) { l_shuge () ; }
