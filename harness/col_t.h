/* Included twice: Int/F/COL/SYM for the int and the long versions */

/* what the documentation says is wrong with the arguments; 0: nothing.  One bit per status code */
static int F(errors) (int sym, Int nr, Int nc, Int Alen, const Int *A, const Int *p)
{
    int e = 0 ;
    if (A == NULL) e |= 1 << 1 ;
    if (p == NULL) e |= 1 << 2 ;
    if (!sym && nr < 0) e |= 1 << 3 ;
    if (nc < 0) e |= 1 << 4 ;
    if (e) return e ;
    if (p [nc] < 0) e |= 1 << 5 ;
    if (p [0] != 0) e |= 1 << 6 ;
    if (e) return e ;
    for (Int j = 0 ; j < nc ; j++) if (p [j] > p [j+1]) e |= 1 << 8 ;
    if (!sym && Alen < 2 * p [nc] + 6 * (nc+1) + 4 * (nr+1) + nc) e |= 1 << 7 ;
    if (e) return e ;
    for (Int j = 0 ; j < nc ; j++)
        for (Int t = p [j] ; t < p [j+1] ; t++)
            if (A [t] < 0 || A [t] >= nr) e |= 1 << 9 ;
    return e ;
}

/* jumbled entries: column of the last one, its row, their number */
static int F(jumbled) (Int nc, const Int *A, const Int *p, Int *col, Int *row)
{
    int c = 0 ;
    for (Int j = 0 ; j < nc ; j++)
        for (Int t = p [j] ; t < p [j+1] ; t++)
        {
            int bad = t > p [j] && A [t] <= A [t-1] ;
            for (Int s = p [j] ; s < t && !bad ; s++) if (A [s] == A [t]) bad = 1 ;
            if (bad) { c++ ; *col = j ; *row = A [t] ; }
        }
    return c ;
}

static void *F(talloc) (size_t n, size_t s) { return calloc (n, s) ; }

/* ---------------------------------------------------------------- C25 */
static void F(bad) (void)
{
    int sym = v_choose ("sym", 2), nc = v_choose ("nc", 4), nr = sym ? nc : v_choose ("nr", 4), cap = v_choose ("cap", 4) ;
    int null = v_choose ("null", 6), room = sym ? 0 : v_choose ("room", 4), fault = sym ? v_choose ("fault", 3) : 0 ;
    Int need = 2*cap + 6*(nc+1) + 4*(nr+1) + nc ;
    Int len = sym ? cap + 1 : need + 4 ;
    Int *A = malloc (len * sizeof (Int)), p [5], q [5], perm [5], stats [COLAMD_STATS], C [4] ;
    double knobs [COLAMD_KNOBS] ;
    COL(set_defaults) (knobs) ;
    COL(set_defaults) (NULL) ;
    for (int k = 0 ; k < COLAMD_KNOBS ; k++)
        v_check (knobs [k] == (k < 2 ? 10 : k == 2 ? 1 : 0), "default knobs") ;
    for (int j = 0 ; j <= nc ; j++) q [j] = p [j] = v_int (nm2 ("p", j, -1), IMIN, IMAX) ;
    v_assume (p [nc] <= cap) ;
    for (int t = 0 ; t < cap ; t++) C [t] = A [t] = v_int (nm2 ("i", t, -1), IMIN, IMAX) ;
    for (int k = 0 ; k < COLAMD_STATS ; k++) stats [k] = 99 ;
    Int Alen = len, r = nr, c = nc ;
    if (room == 1) { Alen = v_int ("Alen", 0, len) ; }
    if (room == 2) { Alen = v_int ("Alen", IMIN, -1) ; }
    if (room == 3) { Alen = need ; }
    if (null == 4) { r = v_int ("r", IMIN, -1) ; v_assume (!sym) ; }
    if (null == 5) c = v_int ("c", IMIN, -1) ;
    int64_t before = v_outstanding () ;
    Int ok ;
    if (sym)
    {
        int t0 = v_shadow (p, (nc+1) * sizeof (Int)), t1 = v_shadow (A, cap * sizeof (Int)) ;
        if (fault) v_fault_on (fault) ;
        ok = SYM(main) (c, null == 1 ? NULL : A, null == 2 ? NULL : p, perm, NULL, null == 3 ? NULL : stats, F(talloc), free) ;
        if (fault) v_fault_off () ;
        v_check (v_same (t0) && v_same (t1), "input not modified") ;
    }
    else
        ok = COL(main) (r, c, Alen, null == 1 ? NULL : A, null == 2 ? NULL : p, NULL, null == 3 ? NULL : stats) ;
    v_check (v_outstanding () == before, "nothing leaked") ;
    v_check (ok == 0 || ok == 1, "a documented result") ;
    if (null == 3) { v_check (!ok, "no statistics: failure") ; v_reach ("no-stats") ; free (A) ; return ; }
    int e = F(errors) (sym, sym ? c : r, c, Alen, null == 1 ? NULL : C, null == 2 ? NULL : q) ;
    Int st = stats [COLAMD_STATUS] ;
    if (fault && v_fault_fired ())
    {
        v_check (!ok, "failure is reported") ;
        v_check (st == COLAMD_ERROR_out_of_memory, "out of memory is reported") ;
        v_reach ("no-memory") ;
        free (A) ;
        return ;
    }
    v_check (ok == (e == 0), "succeeds exactly for valid input") ;
    if (ok)
    {
        Int jc = -1, jr = -1 ;
        int cnt = F(jumbled) (c, C, q, &jc, &jr) ;
        v_check (st == (cnt ? COLAMD_OK_BUT_JUMBLED : COLAMD_OK), "status") ;
        if (cnt)
        {
            v_check (stats [4] == jc && stats [5] == jr && stats [6] == cnt, "details of jumbled columns") ;
            v_reach ("jumbled") ;
        }
        else v_reach ("ok") ;
    }
    else
    {
        v_check (st < 0 && st >= -9, "an error status") ;
        v_check (e >> (int) v_fork (-st) & 1, "the reported error is present") ;
        Int a = stats [4], b = stats [5], d = stats [6] ;
        switch (-(int) v_fork (st))
        {
            case 3: v_check (a == r, "n_row") ; v_reach ("nrow") ; break ;
            case 4: v_check (a == c, "n_col") ; v_reach ("ncol") ; break ;
            case 5: v_check (a == q [c], "nnz") ; v_reach ("nnz") ; break ;
            case 6: v_check (a == q [0], "p0") ; v_reach ("p0") ; break ;
            case 7: v_check (a == 2*q [c] + 6*(c+1) + 4*(r+1) + c && b == Alen, "sizes") ; v_reach ("small") ; break ;
            case 8: v_check (a >= 0 && a < c && b < 0, "column") ;
                    a = v_fork (a) ;
                    v_check (q [a+1] < q [a], "column with a negative count") ;
                    if (q [a+1] >= 0 && q [a] >= 0) v_check (b == q [a+1] - q [a], "negative count") ;
                    v_reach ("negative") ; break ;
            case 9: v_check (a >= 0 && a < c && (b < 0 || b >= r) && d == r, "row index") ;
                    a = v_fork (a) ;
                    { int in = 0 ;
                      for (Int t = q [a] ; t < q [a+1] ; t++) if (C [t] == b) in = 1 ;
                      v_check (in, "row index in column") ; }
                    v_reach ("row") ; break ;
            default: break ;
        }
    }
    free (A) ;
}

/* the recommended workspace: exact, or 0 for negative arguments and overflow */
static void F(rec) (void)
{
    /* zone: 0 all below 2^57, 1 only c large, 2 only r large, 3 only nz large, 4 anything */
    int zone = v_choose ("zone", 5) ;
    Int big = (Int) (IMAX >> (sizeof (Int) == 8 ? 6 : 0)) ;
    Int nz = v_int ("nz", IMIN, zone >= 3 ? IMAX : big), r = v_int ("r", IMIN, zone == 2 || zone == 4 ? IMAX : big) ;
    Int c = v_int ("c", IMIN, zone == 1 || zone == 4 ? IMAX : big) ;
    if (zone == 1) v_assume (c > big) ;
    if (zone == 2) v_assume (r > big) ;
    if (zone == 3) v_assume (nz > big) ;
    size_t s = COL(recommended) (nz, r, c) ;
    if (nz < 0 || r < 0 || c < 0) { v_check (s == 0, "0 for negative arguments") ; v_reach ("negative") ; return ; }
    mpz_t t, u, w ;
    mpz_init (t) ; mpz_init (u) ; mpz_init (w) ;
    /* exact lower bound 2 nnz + 6 (c+1) + 4 (r+1) + c */
    mpz_set_si (t, nz) ; mpz_mul_ui (t, t, 2) ;
    mpz_set_si (u, c) ; mpz_mul_ui (u, u, 7) ; mpz_add (t, t, u) ;
    mpz_set_si (u, r) ; mpz_mul_ui (u, u, 4) ; mpz_add (t, t, u) ;
    mpz_set_ui (u, 10) ; mpz_add (t, t, u) ;
    /* plus nnz/5 elbow room */
    mpz_set_si (w, nz / 5) ; mpz_add (w, w, t) ;
    if (s == 0)
    {
        /* "0 on overflow": of the integer type, or of the size in bytes */
        mpz_set_si (u, sizeof (Int) == 8 ? IMAX >> 2 : IMAX) ;
        v_check (mpz_cmp (w, u) >= 0, "0 only on overflow") ;
        v_reach ("overflow") ;
    }
    else
    {
        mpz_set_ui (u, s) ;
        v_check (mpz_cmp (u, t) >= 0, "at least the bare minimum, not wrapped") ;
        v_check (mpz_cmp (u, w) == 0, "documented size") ;
        v_check (s <= IMAX, "fits the integer type") ;
        v_reach ("size") ;
    }
    mpz_clear (t) ; mpz_clear (u) ; mpz_clear (w) ;
}

/* ---------------------------------------------------------------- C24 */
static void F(pattern) (Int *p, Int *i, int m, int n, int nz, int mode)
{
    p [0] = 0 ;
    for (int j = 1 ; j < n ; j++)
    {
        p [j] = v_int (nm2 ("p", j, -1), 0, nz) ;
        v_assume (p [j] >= p [j-1]) ;
    }
    p [n] = nz ;
    for (int k = 0 ; k < nz ; k++) i [k] = v_int (nm2 ("i", k, -1), 0, m-1) ;
    for (int j = 0 ; j < n ; j++)
    {
        p [j+1] = v_fork (p [j+1]) ;
        for (Int a = p [j] ; a < p [j+1] ; a++)
            if (mode == 0 && a > p [j]) v_assume (i [a-1] < i [a]) ;
    }
}

/* C26: a matrix of one column that claims any number of entries, any number of rows and any room:
   too little room is reported before anything is read */
static void F(huge) (void)
{
    Int q [2] = { 0, 0 }, A [1] = { 0 }, s [COLAMD_STATS] ;
    Int nz = v_int ("nz", 1, IMAX), nr = v_int ("nr", 0, IMAX), room = v_int ("Alen", 0, IMAX) ;
    q [1] = nz ;
    mpz_t t, u ;
    mpz_init (t) ; mpz_init (u) ;
    mpz_set_si (t, nz) ; mpz_mul_ui (t, t, 2) ;
    mpz_set_si (u, nr) ; mpz_mul_ui (u, u, 4) ; mpz_add (t, t, u) ;
    mpz_set_ui (u, 4 + 12 + 1) ; mpz_add (t, t, u) ;
    mpz_set_si (u, room) ;
    v_assume (mpz_cmp (t, u) > 0) ;
    int ok = COL(main) (nr, 1, room, A, q, NULL, s) ;
    v_check (ok == 0 && s [COLAMD_STATUS] == COLAMD_ERROR_A_too_small, "too small") ;
    v_check (s [5] == room, "room") ;
    v_reach ("too-small") ;
    mpz_set_si (u, IMAX) ;
    if (mpz_cmp (t, u) > 0) v_reach ("overflow") ;
    mpz_clear (t) ; mpz_clear (u) ;
}

/* the same for symamd: n columns that claim any number of entries; the row indices stop at an invalid one */
static void F(shuge) (void)
{
    Int q [2] = { 0, 0 }, perm [2], A [1], s [COLAMD_STATS] ;
    Int nz = v_int ("nz", 1, IMAX) ;
    q [1] = nz ;
    A [0] = v_int ("i", IMIN, IMAX) ;
    v_assume (A [0] != 0) ;
    int64_t before = v_outstanding () ;
    int ok = SYM(main) (1, A, q, perm, NULL, s, F(talloc), free) ;
    v_check (ok == 0, "refused") ;
    v_check (s [COLAMD_STATUS] == COLAMD_ERROR_row_index_out_of_bounds || (s [COLAMD_STATUS] == COLAMD_ERROR_out_of_memory && nz > IMAX / 16), "status") ;
    v_check (v_outstanding () == before, "nothing leaked") ;
    v_reach ("refused") ;
}
