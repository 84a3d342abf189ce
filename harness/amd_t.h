/* Included twice: Int/F for the int and the long versions */

/* verdict on a pattern, written from the documentation: -2 invalid, 0 ok, 1 jumbled */
static int F(ref_valid) (Int nr, Int nc, const Int *p, const Int *i)
{
    int r = 0 ;
    if (nr < 0 || nc < 0 || p == NULL || i == NULL) return -2 ;
    if (p [0] != 0) return -2 ;
    for (Int j = 0 ; j < nc ; j++) if (p [j] > p [j+1]) return -2 ;
    for (Int j = 0 ; j < nc ; j++)
    {
        for (Int t = p [j] ; t < p [j+1] ; t++)
        {
            if (i [t] < 0 || i [t] >= nr) return -2 ;
            if (t > p [j] && i [t] <= i [t-1]) r = 1 ;
        }
    }
    return r ;
}

/* ---------------------------------------------------------------- C22 */
static void F(valid) (void)
{
    /* every array entry is any value; only p [n] <= cap (the size of i) is assumed */
    int nc = v_choose ("nc", 4), cap = v_choose ("cap", 6), nr = v_choose ("nr", 5) - 1, null = v_choose ("null", 4) ;
    Int p [4], *i = malloc ((cap + 1) * sizeof (Int)) ;
    for (int j = 0 ; j <= nc ; j++) p [j] = v_int (nm2 ("p", j, -1), IMIN, IMAX) ;
    v_assume (p [nc] <= cap) ;
    for (int t = 0 ; t < cap ; t++) i [t] = v_int (nm2 ("i", t, -1), IMIN, IMAX) ;
    Int ncol = null == 3 ? -1 : nc ;
    int t0 = v_shadow (p, (nc+1) * sizeof (Int)), t1 = v_shadow (i, cap * sizeof (Int)) ;
    int v = AMD(valid) (nr, ncol, null == 1 ? NULL : p, null == 2 ? NULL : i) ;
    v_check (v == AMD_OK || v == AMD_INVALID || v == AMD_OK_BUT_JUMBLED, "a documented verdict") ;
    int r = F(ref_valid) (nr, ncol, null == 1 ? NULL : p, null == 2 ? NULL : i) ;
    v_check (v == r, "verdict on the pattern") ;
    if (v == AMD_OK) v_reach ("ok") ;
    if (v == AMD_INVALID) v_reach ("invalid") ;
    if (v == AMD_OK_BUT_JUMBLED) v_reach ("jumbled") ;
    v_check (v_same (t0) && v_same (t1), "pattern not modified") ;
    free (i) ;
    v_check (v_outstanding () == 0, "nothing allocated") ;
}

/* the ordering routine maps verdict, NULL arguments, sizes and memory failure to its codes */
static void F(codes) (void)
{
    int n = v_choose ("n", 4), cap = v_choose ("cap", 5), bad = v_choose ("bad", 7), fault = v_choose ("fault", 3) ;
    Int p [5], P [4], *i = malloc ((cap + 1) * sizeof (Int)) ;
    double Info [AMD_INFO], Control [AMD_CONTROL] ;
    int info = v_choose ("info", 2) ;
    for (int j = 0 ; j <= n ; j++) p [j] = v_int (nm2 ("p", j, -1), IMIN, IMAX) ;
    v_assume (p [n] <= cap) ;
    for (int t = 0 ; t < cap ; t++) i [t] = v_int (nm2 ("i", t, -1), IMIN, IMAX) ;
    AMD(defaults) (Control) ;
    v_check (Control [AMD_DENSE] == AMD_DEFAULT_DENSE && Control [AMD_AGGRESSIVE] == AMD_DEFAULT_AGGRESSIVE, "default control") ;
    for (int k = 0 ; k < AMD_INFO ; k++) Info [k] = 77 ;
    Int nn = n ;
    if (bad == 4) { nn = v_int ("neg", IMIN, IMAX) ; v_assume (nn < 0) ; }
    int64_t before = v_outstanding () ;
    if (fault) v_fault_on (fault) ;
    int v = AMD(order) (nn, bad == 1 ? NULL : p, bad == 2 ? NULL : i, bad == 3 ? NULL : P,
        bad == 5 ? NULL : Control, info ? Info : NULL) ;
    if (fault) v_fault_off () ;
    v_check (v_outstanding () == before, "nothing leaked") ;
    int want = 0 ;
    if (bad >= 1 && bad <= 4) want = AMD_INVALID ;
    else if (n == 0) want = AMD_OK ;
    else if (fault && v_fault_fired ()) { want = AMD_OUT_OF_MEMORY ; v_reach ("no-memory") ; }
    else want = F(ref_valid) (n, n, p, i) ;
    v_check (v == want, "return code") ;
    if (info)
    {
        v_check (Info [AMD_STATUS] == want, "status statistic") ;
        v_check (Info [AMD_N] == nn, "n statistic") ;
    }
    if (v == AMD_OK) v_reach ("ok") ;
    if (v == AMD_INVALID) v_reach ("invalid") ;
    if (v == AMD_OK_BUT_JUMBLED) v_reach ("jumbled") ;
    free (i) ;
}

/* sizes at the limit of the integer type: refused before any array is read beyond p[n] */
static void F(huge) (void)
{
    Int p [2] = { 0, 0 }, i [1] = { 0 }, P [1] ;
    double Info [AMD_INFO] ;
    /* n = 1 and any nz: the row indices stop at the first invalid one */
    Int nz = v_int ("nz", 1, IMAX) ;
    p [1] = nz ;
    i [0] = v_int ("i", IMIN, IMAX) ;
    v_assume (i [0] != 0) ;
    int v = AMD(order) (1, p, i, P, NULL, Info) ;
    v_check (v == (HUGE_NZ (nz) ? AMD_OUT_OF_MEMORY : AMD_INVALID), "return code") ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
    v_reach (v == AMD_INVALID ? "invalid" : "too-big") ;
}

/* ---------------------------------------------------------------- C21, C23
   set the pattern of n columns with nz entries, symbolic, then forked to a path-concrete one */
static void F(pattern) (Int *p, Int *i, int n, int nz, int mode)
{
    p [0] = 0 ;
    for (int j = 1 ; j < n ; j++)
    {
        p [j] = v_int (nm2 ("p", j, -1), 0, nz) ;
        v_assume (p [j] >= p [j-1]) ;
    }
    p [n] = nz ;
    for (int k = 0 ; k < nz ; k++) i [k] = v_int (nm2 ("i", k, -1), 0, n-1) ;
    for (int j = 0 ; j < n ; j++)
    {
        p [j+1] = v_fork (p [j+1]) ;
        for (Int a = p [j] ; a < p [j+1] ; a++)
            if (mode == 0 && a > p [j]) v_assume (i [a-1] < i [a]) ;
    }
}

/* pattern as a 0/1 table */
static void F(table) (char *T, int n, const Int *p, const Int *i)
{
    for (int k = 0 ; k < n*n ; k++) T [k] = 0 ;
    for (int j = 0 ; j < n ; j++) for (Int t = p [j] ; t < p [j+1] ; t++) T [v_fork (i [t]) + n*j] = 1 ;
}

/* permutation and statistics against the pattern */
static void F(judge) (int n, const char *T, int jumbled, Int nz, const Int *P, const double *Info, double alpha)
{
    int pos [NMAX] ;
    for (int k = 0 ; k < n ; k++) pos [k] = -1 ;
    for (int k = 0 ; k < n ; k++)
    {
        v_check (P [k] >= 0 && P [k] < n, "P in range") ;
        v_check (pos [v_fork (P [k])] == -1, "P is a permutation") ;
        pos [P [k]] = k ;
    }
    if (!Info) return ;
    int cnt = 0, diag = 0, both = 0, off = 0, un = 0 ;
    static char S [NMAX*NMAX] ;
    for (int k = 0 ; k < n*n ; k++) S [k] = 0 ;
    for (int j = 0 ; j < n ; j++)
        for (int r = 0 ; r < n ; r++)
        {
            if (T [r + n*j]) { cnt++ ; if (r == j) diag++ ; else { off++ ; if (T [j + n*r]) both++ ; } }
            if (r != j && (T [r + n*j] || T [j + n*r])) { un++ ; S [pos [r] + n * pos [j]] = 1 ; }
        }
    v_check (Info [AMD_N] == n, "n") ;
    v_check (Info [AMD_NZ] == cnt, "number of entries") ;
    v_check (Info [AMD_NZDIAG] == diag, "diagonal entries") ;
    v_check (Info [AMD_SYMMETRY] == (off ? (double) both / off : 1.0), "symmetry") ;
    v_check (Info [AMD_NZ_A_PLUS_AT] == un, "entries of A+A'") ;
    double mem = un + un / 5 + 9.0 * n ;
    if (jumbled) mem += n + 1 + nz ;
    v_check (Info [AMD_MEMORY] == mem * sizeof (Int), "memory") ;
    v_check (Info [AMD_NCMPA] >= 0, "garbage collections") ;
    /* dense rows: more than max (16, alpha sqrt n) entries of A+A', placed last */
    int nd = 0, full = 0 ;
    for (int r = 0 ; r < n ; r++)
    {
        int d = 0 ;
        for (int j = 0 ; j < n ; j++) if (S [r + n*j]) d++ ;
        if (alpha >= 0 && d > 16 && (double) d > alpha * sqrt ((double) n)) nd++ ;
        if (d == n-1 && d > 16 && alpha < 0) full++ ;
    }
    v_check (Info [AMD_NDENSE] >= nd && Info [AMD_NDENSE] <= nd + full, "number of dense rows") ;
    if (nd + full > 0) v_reach ("dense") ;
    /* exact elimination of the permuted A+A' */
    double lnz = 0, lu = 0, ldl = 0, dmax = 1 ;
    for (int k = 0 ; k < n ; k++)
    {
        double c = 0 ;
        for (int r = k+1 ; r < n ; r++)
        {
            if (!S [r + n*k]) continue ;
            c++ ;
            for (int j = k+1 ; j < n ; j++) if (j != r && S [j + n*k]) S [r + n*j] = 1 ;
        }
        lnz += c ; lu += c*c ; ldl += c*(c+1)/2 ;
        if (c + 1 > dmax) dmax = c + 1 ;
    }
    v_check (Info [AMD_LNZ] >= lnz && Info [AMD_LNZ] <= n * (n-1) / 2, "bound on fill") ;
    v_check (Info [AMD_NDIV] >= lnz, "bound on divisions") ;
    v_check (Info [AMD_NMULTSUBS_LDL] >= ldl, "bound on LDL' operations") ;
    v_check (Info [AMD_NMULTSUBS_LU] >= lu, "bound on LU operations") ;
    v_check (Info [AMD_DMAX] >= dmax && Info [AMD_DMAX] <= n, "bound on the largest column") ;
}
