#include "common.h"

#define ANY(s) v_int (s, INT64_MIN, INT64_MAX)

/* are the pointers and indices of a sparse matrix those of a matrix? */
static int sound (SLIP_matrix *A, int kind, int m, int n, int64_t lim)
{
    int ok = 1 ;
    if (ok && kind == SLIP_CSC)
    {
        if (A->p [0] != 0) ok = 0 ;
        for (int k = 0 ; ok && k < n ; k++) if (A->p [k+1] < A->p [k] || A->p [k+1] > lim) ok = 0 ;
        for (int k = 0 ; ok && k < n ; k++)
            for (int64_t a = A->p [k] ; ok && a < A->p [k+1] ; a++)
            {
                if (A->i [a] < 0 || A->i [a] >= m) ok = 0 ;
                for (int64_t b = A->p [k] ; ok && b < a ; b++) if (A->i [b] == A->i [a]) ok = 0 ;
            }
    }
    if (ok && kind == SLIP_TRIPLET)
    {
        if (A->nz < 0 || A->nz > lim) ok = 0 ;
        else A->nz = v_fork (A->nz) ;
        for (int64_t a = 0 ; ok && a < A->nz ; a++)
        {
            if (A->i [a] < 0 || A->i [a] >= m || A->j [a] < 0 || A->j [a] >= n) ok = 0 ;
            for (int64_t b = 0 ; ok && b < a ; b++) if (A->i [b] == A->i [a] && A->j [b] == A->j [a]) ok = 0 ;
        }
    }
    return ok ;
}

/* ---------------------------------------------------------------- C12
   bad: 0 none, 1 kind, 2 type, 3 m, 4 n, 5 nzmax < 0, 6 p NULL, 7 i NULL,
        8 j NULL, 9 x NULL, 10 nzmax = 0 */
void h_mcheck (void)
{
    int kind = v_choose ("kind", 2), type = v_choose ("type", 5) ;
    int m = v_choose ("m", 4), n = v_choose ("n", 4), cap = 1 + v_choose ("cap", 4) ;
    int bad = v_choose ("bad", 11), pr = v_choose ("pr", 4) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->print_level = pr ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, kind, type, m, n, cap, false, true, o)) ;
    if (kind == SLIP_CSC) for (int k = 0 ; k <= n ; k++) A->p [k] = ANY (nm2 ("p", k, -1)) ;
    for (int k = 0 ; k < cap ; k++)
    {
        A->i [k] = ANY (nm2 ("i", k, -1)) ;
        if (kind == SLIP_TRIPLET) A->j [k] = ANY (nm2 ("j", k, -1)) ;
    }
    if (kind == SLIP_TRIPLET) A->nz = ANY ("nz") ;
    else A->nz = 77 ;   /* ignored */
    SLIP_matrix keep = *A ;
    if (bad == 1) A->kind = (v_choose ("which", 2)) ? -1 : 3 ;
    if (bad == 2) A->type = (v_choose ("which", 2)) ? -1 : 5 ;
    if (bad == 3) A->m = v_int ("badm", INT64_MIN, -1) ;
    if (bad == 4) A->n = v_int ("badn", INT64_MIN, -1) ;
    if (bad == 5) A->nzmax = v_int ("badnzmax", INT64_MIN, -1) ;
    if (bad == 6) A->p = NULL ;
    if (bad == 7) A->i = NULL ;
    if (bad == 8) A->j = NULL ;
    if (bad == 9) A->x.mpz = NULL ;
    if (bad == 10) A->nzmax = 0 ;
    int t0 = v_shadow (A, sizeof (SLIP_matrix)) ;
    int t1 = A->p ? v_shadow (A->p, (n+1) * 8) : -1, t2 = A->i ? v_shadow (A->i, cap*8) : -1, t3 = A->j ? v_shadow (A->j, cap*8) : -1 ;

    /* the verdict */
    int ok = !(bad >= 1 && bad <= 5) && !(bad == 6 && kind == SLIP_CSC) ;
    int64_t lim = bad == 10 ? 0 : cap ;
    if (lim > 0 && (bad == 7 || (bad == 8 && kind == SLIP_TRIPLET) || bad == 9)) ok = 0 ;
    if (ok) ok = sound (A, kind, m, n, lim) ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_matrix_check (A, o) ;
    v_obs_int ("r", r) ;
    if (ok) { v_reach ("valid") ; v_check (r == SLIP_OK, "a valid matrix is accepted") ; }
    else { v_reach ("invalid") ; v_check (r == SLIP_INCORRECT_INPUT, "an invalid matrix is rejected") ; }
    v_check (v_outstanding () == before, "check keeps no memory") ;
    v_check (v_same (t0), "header not modified") ;
    if (t1 >= 0) v_check (v_same (t1), "p not modified") ;
    if (t2 >= 0) v_check (v_same (t2), "i not modified") ;
    if (t3 >= 0) v_check (v_same (t3), "j not modified") ;
    *A = keep ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* larger matrices: a valid one in which one number may be anything */
void h_mcheck_big (void)
{
    int kind = v_choose ("kind", 2), type = v_choose ("type", 5), m = 2 + v_choose ("m", 20), n = 2 + v_choose ("n", 20) ;
    int step = 1 + v_choose ("step", 6), rev = v_choose ("rev", 2), what = v_choose ("what", 4), pos = v_choose ("pos", 40), pr = v_choose ("pr", 4) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->print_level = pr ;
    int64_t cnt = 0 ;
    for (int t = 0 ; t < m*n ; t += step + t % 3) cnt++ ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, kind, type, m, n, cnt + 2, false, true, o)) ;
    int64_t c = 0 ;
    for (int t = 0 ; t < m*n ; t += step + t % 3)
    {
        int j = t / m, i = t % m ;
        if (rev && j % 2) i = m-1-i ;
        A->i [c] = i ;
        if (kind == SLIP_TRIPLET) A->j [c] = j ;
        else for (int k = j+1 ; k <= n ; k++) A->p [k] = c+1 ;
        c++ ;
    }
    if (kind == SLIP_TRIPLET)
    {
        A->nz = cnt ;
        /* entries of a column apart */
        if (rev) for (int64_t a = 0, b = cnt-1 ; a < b ; a += 2, b--)
        {
            int64_t t = A->i [a] ; A->i [a] = A->i [b] ; A->i [b] = t ;
            t = A->j [a] ; A->j [a] = A->j [b] ; A->j [b] = t ;
        }
    }
    if (what == 0) A->i [pos % cnt] = ANY ("i") ;
    if (what == 1) { if (kind == SLIP_TRIPLET) A->j [pos % cnt] = ANY ("j") ; else A->p [pos % (n+1)] = ANY ("p") ; }
    if (what == 2) { if (kind == SLIP_TRIPLET) A->nz = ANY ("nz") ; else A->p [n] = ANY ("p") ; }
    /* what == 3: the valid matrix */
    int t0 = v_shadow (A, sizeof (SLIP_matrix)), t1 = A->p ? v_shadow (A->p, (n+1) * 8) : -1, t2 = v_shadow (A->i, (cnt+2)*8) ;
    int ok = sound (A, kind, m, n, A->nzmax) ;
    int64_t before = v_outstanding () ;
    SLIP_info r = SLIP_matrix_check (A, o) ;
    v_obs_int ("r", r) ;
    if (ok) { v_reach ("valid") ; v_check (r == SLIP_OK, "a valid matrix is accepted") ; }
    else { v_reach ("invalid") ; v_check (r == SLIP_INCORRECT_INPUT, "an invalid matrix is rejected") ; }
    v_check (v_outstanding () == before, "check keeps no memory") ;
    v_check (v_same (t0), "header not modified") ;
    if (t1 >= 0) v_check (v_same (t1), "p not modified") ;
    v_check (v_same (t2), "i not modified") ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* dense: any dimensions and nzmax, header only */
void h_mcheck_dense (void)
{
    int type = v_choose ("type", 5), xnull = v_choose ("xnull", 2), what = v_choose ("what", 3), pr = v_choose ("pr", 2) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    o->print_level = pr ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_DENSE, type, 2, 2, 4, false, true, o)) ;
    SLIP_matrix keep = *A ;
    A->m = what == 0 ? ANY ("m") : v_fork (v_int ("m", -2, 3)) ;
    A->n = what == 1 ? ANY ("n") : v_fork (v_int ("n", -2, 3)) ;
    A->nzmax = what == 2 ? ANY ("nzmax") : v_int ("nzmax", -3, 12) ;
    /* an empty matrix with 2^62 columns is valid, but the printing loop visits each column */
    if (A->m == 0) v_assume (A->n <= 12) ;
    A->nz = 99 ;
    if (xnull) A->x.mpz = NULL ;
    int ok = A->m >= 0 && A->n >= 0 && A->nzmax >= 0 ;
    int64_t nn = -1 ;
    if (ok)
    {
        /* m*n within the integers and within nzmax */
        int64_t s = what == 0 ? A->n : A->m, b = what == 0 ? A->m : A->n ;
        if (s > 0 && b > INT64_MAX / s) ok = 0 ;
        else { nn = s*b ; if (nn > A->nzmax) ok = 0 ; }
    }
    if (xnull && A->nzmax > 0) ok = 0 ;
    SLIP_info r = SLIP_matrix_check (A, o) ;
    if (ok) { v_reach ("valid") ; v_check (r == SLIP_OK, "a valid matrix is accepted") ; v_check (SLIP_matrix_nnz (A, o) == nn, "m*n entries") ; }
    else { v_reach ("invalid") ; v_check (r == SLIP_INCORRECT_INPUT, "an invalid matrix is rejected") ; }
    *A = keep ;
    v_check (SLIP_matrix_check (NULL, o) == SLIP_INCORRECT_INPUT, "NULL matrix") ;
    v_check (SLIP_matrix_nnz (NULL, o) < 0, "no entry count for a NULL matrix") ;
    SLIP_matrix_free (&A, o) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* ---------------------------------------------------------------- C13, C26 */
static int64_t dim (const char *s, int c)
{
    return c == 0 ? v_int (s, 0, 3) : c == 1 ? v_int (s, INT64_MIN, -1) : v_int (s, 1 << 18, INT64_MAX) ;
}
static void zero_ints (const int64_t *a, int64_t n, const char *msg)
{
    for (int64_t k = 0 ; k < n ; k++) v_check (a [k] == 0, msg) ;
}
void h_alloc (void)
{
    int kind = v_choose ("kind", 5) - 1, type = v_choose ("type", 7) - 1 ;
    int shallow = v_choose ("shallow", 2), init = v_choose ("init", 2) ;
    int mc = v_choose ("mc", 3), nc = v_choose ("nc", 3), zc = v_choose ("zc", 3), fault = v_choose ("fault", 2), wide = v_choose ("wide", 4) ;
    start () ;
    SLIP_options *o = v_choose ("opt", 2) ? mk_opt () : NULL ;
    if (o) o->prec = 53 ;
    /* wide: dimensions past the small ones */
    static const int wm [] = { 0, 17, 9, 70 }, wn [] = { 0, 6, 40, 1 }, wz [] = { 0, 35, 8, 150 } ;
    int64_t m = wide ? wm [wide] : dim ("m", mc), n = wide ? wn [wide] : dim ("n", nc), z = wide ? wz [wide] : dim ("nzmax", zc) ;
    if (mc == 0 && !wide) m = v_fork (m) ;
    if (nc == 0 && !wide) n = v_fork (n) ;
    if (zc == 0 && !wide) z = v_fork (z) ;
    /* the first use of GMP and MPFR may set up caches */
    SLIP_matrix *W = NULL ;
    OK (SLIP_matrix_allocate (&W, SLIP_DENSE, SLIP_MPFR, 1, 1, 1, false, true, o)) ;
    OK (SLIP_matrix_free (&W, o)) ;
    int64_t before = v_outstanding () ;
    SLIP_matrix junk, *A = &junk ;
    if (fault) v_fault_on (1) ;
    SLIP_info r = SLIP_matrix_allocate (&A, kind, type, m, n, z, shallow, init, o) ;
    if (fault) v_fault_off () ;
    v_obs_int ("r", r) ;
    int bad = mc == 1 || nc == 1 || kind < 0 || kind > 2 || type < 0 || type > 4 ;
    if (bad) v_check (r == SLIP_INCORRECT_INPUT, "invalid arguments are refused") ;
    else if (fault && v_fault_fired ()) { v_reach ("no-memory") ; v_check (r == SLIP_OUT_OF_MEMORY, "failed request is reported") ; }
    else if (r != SLIP_OK)
    {
        v_reach ("too-big") ;
        v_check (r == SLIP_OUT_OF_MEMORY, "too large: out of memory") ;
        v_check (mc == 2 || nc == 2 || zc == 2, "small requests succeed") ;
    }
    if (r != SLIP_OK)
    {
        v_check (A == NULL, "no object on failure") ;
        /* a failure inside GMP also releases the list of its blocks */
        v_check (v_outstanding () <= before, "nothing leaked on failure") ;
    }
    else
    {
        v_reach ("made") ;
        v_check (!bad, "invalid arguments are refused") ;
        v_check (A != NULL && A != &junk, "object returned") ;
        v_check (A->m == m && A->n == n && A->kind == kind && A->type == type && A->nz == 0, "requested shape") ;
        v_check (A->p_shallow == (bool) shallow && A->i_shallow == (bool) shallow && A->j_shallow == (bool) shallow && A->x_shallow == (bool) shallow, "shallow flags") ;
        v_check (mpq_cmp_ui (A->scale, 1, 1) == 0, "scale is 1") ;
        if (shallow) v_check (A->p == NULL && A->i == NULL && A->j == NULL && A->x.mpz == NULL, "shallow: nothing allocated") ;
        else
        {
            int64_t want = kind == SLIP_DENSE ? m*n : z ;
            v_check (A->nzmax == (want > 1 ? want : 1), "room as requested") ;
            v_check ((A->p != NULL) == (kind == SLIP_CSC), "p present") ;
            v_check ((A->i != NULL) == (kind != SLIP_DENSE), "i present") ;
            v_check ((A->j != NULL) == (kind == SLIP_TRIPLET), "j present") ;
            v_check (A->x.mpz != NULL, "x present") ;
            if (A->p) zero_ints (A->p, n+1, "p is zero") ;
            if (A->i) zero_ints (A->i, A->nzmax, "i is zero") ;
            if (A->j) zero_ints (A->j, A->nzmax, "j is zero") ;
            for (int64_t k = 0 ; k < A->nzmax ; k++)
            {
                if (type == SLIP_INT64) v_check (A->x.int64 [k] == 0, "values are zero") ;
                if (type == SLIP_FP64) v_check (A->x.fp64 [k] == 0, "values are zero") ;
                if (type == SLIP_MPZ && init) { v_check (mpz_sgn (A->x.mpz [k]) == 0, "values are zero") ; mpz_set_si (A->x.mpz [k], -5) ; }
                if (type == SLIP_MPQ && init) { v_check (mpq_sgn (A->x.mpq [k]) == 0, "values are zero") ; mpq_set_si (A->x.mpq [k], 1, 2) ; }
                if (type == SLIP_MPFR && init) mpfr_set_si (A->x.mpfr [k], 3, MPFR_RNDN) ;
            }
            if (mc != 2 && nc != 2 && zc != 2) v_check (SLIP_matrix_check (A, o) == SLIP_OK, "a new matrix is valid") ;
        }
        v_check (SLIP_matrix_free (&A, o) == SLIP_OK, "freed") ;
        v_check (A == NULL, "handle cleared") ;
        v_check (v_outstanding () == before, "free releases everything") ;
        v_check (SLIP_matrix_free (&A, o) == SLIP_OK, "free of nothing") ;
    }
    v_check (SLIP_matrix_allocate (NULL, kind, type, m, n, z, shallow, init, o) == SLIP_INCORRECT_INPUT, "NULL handle") ;
    v_check (SLIP_matrix_free (NULL, o) == SLIP_OK, "free of a NULL handle") ;
    SLIP_FREE (o) ;
    finish () ;
}

/* any combination of shallow components: free releases the owned ones only */
void h_shallow (void)
{
    int kind = v_choose ("kind", 3), type = v_choose ("type", 5), own = v_choose ("own", 16), part = v_choose ("part", 2) ;
    start () ;
    SLIP_options *o = mk_opt () ;
    SLIP_matrix *A = NULL, *B = NULL ;
    OK (SLIP_matrix_allocate (&A, kind, type, 2, 2, 3, false, true, o)) ;
    int64_t c0 = v_outstanding () ;
    OK (SLIP_matrix_allocate (&B, kind, type, 2, 2, 3, true, false, o)) ;
    /* B borrows from A what it does not own */
    B->nzmax = A->nzmax ;
    B->p = A->p ; B->i = A->i ; B->j = A->j ; B->x = A->x ;
    if (own & 1) { B->p_shallow = 0 ; B->p = kind == SLIP_CSC ? SLIP_calloc (3, 8) : NULL ; }
    if (own & 2) { B->i_shallow = 0 ; B->i = kind != SLIP_DENSE ? SLIP_calloc (4, 8) : NULL ; }
    if (own & 4) { B->j_shallow = 0 ; B->j = kind == SLIP_TRIPLET ? SLIP_calloc (4, 8) : NULL ; }
    if (own & 8)
    {
        SLIP_matrix *C = NULL ;
        OK (SLIP_matrix_allocate (&C, kind, type, 2, 2, 3, false, !part, o)) ;
        B->x = C->x ; B->x_shallow = 0 ;
        C->x.mpz = NULL ;
        OK (SLIP_matrix_free (&C, o)) ;
        if (part)
        {
            /* only some entries are initialized */
            if (type == SLIP_MPZ) OK (SLIP_mpz_init (B->x.mpz [1])) ;
            if (type == SLIP_MPQ) OK (SLIP_mpq_init (B->x.mpq [1])) ;
            if (type == SLIP_MPFR) OK (SLIP_mpfr_init2 (B->x.mpfr [1], 64)) ;
        }
    }
    OK (SLIP_matrix_free (&B, o)) ;
    v_reach ("freed") ;
    v_check (B == NULL, "handle cleared") ;
    v_check (v_outstanding () == c0, "free releases exactly what the object owns") ;
    /* A is intact */
    for (int k = 0 ; k < A->nzmax ; k++)
    {
        if (A->i) v_check (A->i [k] == 0, "borrowed indices intact") ;
        if (type == SLIP_MPZ) v_check (mpz_sgn (A->x.mpz [k]) == 0, "borrowed values intact") ;
        if (type == SLIP_MPQ) v_check (mpq_sgn (A->x.mpq [k]) == 0, "borrowed values intact") ;
        if (type == SLIP_FP64) v_check (A->x.fp64 [k] == 0, "borrowed values intact") ;
    }
    if (A->p) v_check (A->p [2] == 0, "borrowed pointers intact") ;
    OK (SLIP_matrix_free (&A, o)) ;
    SLIP_FREE (o) ;
    finish () ;
}

/* ---------------------------------------------------------------- C20 (and C26)
   memory wrappers with every size */
static int64_t sizes (const char *s, int c)
{
    switch (c)
    {
        case 0: return v_int (s, 0, 6) ;
        case 1: return v_int (s, 7, 48) ;
        case 2: return v_int (s, 49, (int64_t) 1 << 52) ;
        case 3: return v_int (s, (int64_t) 1 << 52, ((int64_t) 1 << 60) - 1) ;
        case 4: return v_int (s, (int64_t) 1 << 60, INT64_MAX) ;
        default: return v_int (s, INT64_MIN, -1) ;
    }
}
void h_mem (void)
{
    int what = v_choose ("what", 4), fault = v_choose ("fault", 2), cls = v_choose ("cls", what == 3 ? 1 : 6) ;
    start () ;
    v_limit (48) ;
    int64_t before = v_outstanding () ;
    if (what == 0)
    {
        size_t n = (size_t) sizes ("n", cls) ;
        if (n < 12) n = v_fork (n) ;
        if (fault) v_fault_on (1) ;
        unsigned char *p = SLIP_malloc (n) ;
        if (fault) v_fault_off () ;
        if (p == NULL) { v_check (n > 48 || (fault && v_fault_fired ()), "a small request succeeds") ; v_check (v_outstanding () == before, "no side effect") ; }
        else
        {
            v_reach ("got") ;
            v_check (n <= 48, "a large request is refused") ;
            if (n > 0 && n < 12) { p [0] = 1 ; p [n-1] = 2 ; }
            v_check (v_outstanding () == before + 1, "one block") ;
        }
        SLIP_free (p) ;
    }
    else if (what == 1)
    {
        size_t a = (size_t) sizes ("a", cls), b = (size_t) v_choose ("b", 5) ;
        static const size_t sz [] = { 1, 8, 16, 0, (size_t) 1 << 62 } ;
        b = sz [b] ;
        if (a < 6) a = v_fork (a) ;
        if (fault) v_fault_on (1) ;
        unsigned char *p = SLIP_calloc (a, b) ;
        if (fault) v_fault_off () ;
        /* bytes wanted, in extended precision */
        int big = a >= 6 && (b == 0 ? 0 : a > 48 / b) ;
        if (a < 6) big = b > 48 || a*b > 48 ;
        if (a == 0 && b > 48) big = 1 ;
        if (b == 0) big = a > 48 ;
        if (p == NULL) { v_check (big || (fault && v_fault_fired ()), "a small request succeeds") ; v_check (v_outstanding () == before, "no side effect") ; }
        else
        {
            v_reach ("got") ;
            v_check (!big, "a large or overflowing request is refused") ;
            if (a < 6) for (size_t k = 0 ; k < a*b ; k++) v_check (p [k] == 0, "zeroed") ;
        }
        SLIP_free (p) ;
    }
    else if (what == 2)
    {
        int on = v_choose ("old", 4), sz = v_choose ("size", 2) ? 8 : 1, isnull = v_choose ("isnull", 2) ;
        int64_t nn = sizes ("new", cls) ;
        if (nn >= 0 && nn < 8) nn = v_fork (nn) ;
        unsigned char *p = isnull ? NULL : SLIP_malloc ((on > 1 ? on : 1) * sz), *q ;
        if (!isnull) for (int k = 0 ; k < on*sz ; k++) p [k] = 17 + k ;
        int64_t have = v_outstanding () ;
        bool ok = 7 > 3 ;
        if (fault) v_fault_on (1) ;
        q = SLIP_realloc (nn, isnull ? 0 : on, sz, p, &ok) ;
        if (fault) v_fault_off () ;
        /* negative counts are huge counts */
        int fits = nn >= 0 && nn <= 48 / sz ;
        if (ok)
        {
            v_reach ("ok") ;
            v_check (q != NULL, "a block is returned") ;
            v_check (fits, "too large a size is refused") ;
            v_check (v_outstanding () == have + isnull, "one block") ;
            if (nn >= 0 && nn < 8)
            {
                int64_t lim = isnull ? 0 : nn < on ? nn : on ;
                for (int64_t k = 0 ; k < lim*sz ; k++) v_check (q [k] == (unsigned char) (17 + k), "contents preserved") ;
                /* a failed shrink keeps the larger block */
                if (nn > 0) { q [nn*sz - 1] = 1 ; q [0] = 1 ; }
            }
        }
        else
        {
            v_reach ("failed") ;
            v_check (!fits || (fault && v_fault_fired ()), "a small request succeeds") ;
            v_check (isnull || nn < 0 || nn > (on > 1 ? on : 1), "shrinking and keeping the size succeed") ;
            v_check (q == p, "the old block is returned") ;
            v_check (v_outstanding () == have, "no side effect") ;
            if (!isnull) for (int k = 0 ; k < on*sz ; k++) v_check (p [k] == 17 + k, "old contents intact") ;
        }
        SLIP_free (q) ;
    }
    else
    {
        /* the macro form frees and clears */
        int64_t *p = SLIP_malloc (24) ;
        if (p) { p [2] = 1 ; }
        SLIP_FREE (p) ;
        v_check (p == NULL, "SLIP_FREE clears the pointer") ;
        SLIP_free (NULL) ;
        v_reach ("freed") ;
    }
    v_check (v_outstanding () == before, "all released") ;
    v_limit (1 << 20) ;
    finish () ;
}

/* the size handed to the memory functions is the exact product, or the request is refused before they are called */
static size_t got ;
static int calls, deny ;
static unsigned char pool [64] ;
static void *rec_malloc (size_t s) { calls++ ; got = s ; return (deny || s > 48) ? NULL : pool ; }
static void *rec_calloc (size_t a, size_t b) { calls++ ; if (b && a > SIZE_MAX / b) { got = SIZE_MAX ; return NULL ; } got = a*b ; return (deny || got > 48) ? NULL : pool ; }
static void *rec_realloc (void *p, size_t s) { calls++ ; got = s ; return (deny || s > 48) ? NULL : p ; }

void h_product (void)
{
    static const size_t items [] = { 8, 6, 24, 1, 0, (size_t) 1 << 32, ((size_t) 1 << 62) + 1 } ;
    int what = v_choose ("what", 3), cls = v_choose ("cls", 6) ;
    size_t b = items [v_choose ("item", 7)] ;
    deny = v_choose ("deny", 2) ;
    size_t a = (size_t) sizes ("a", cls) ;
    SuiteSparse_config.malloc_func = rec_malloc ;
    SuiteSparse_config.calloc_func = rec_calloc ;
    SuiteSparse_config.realloc_func = rec_realloc ;
    calls = 0 ;
    int ok = 7 ;
    unsigned char *p ;
    static unsigned char old [48] ;
    if (what == 0) p = SuiteSparse_malloc (a, b) ;
    else if (what == 1) p = SuiteSparse_calloc (a, b) ;
    else p = SuiteSparse_realloc (a, 2, b, old, &ok) ;
    size_t x = b ? b : 1, y = a ? a : 1 ;
    int fits = y <= SIZE_MAX / x ;
    if (calls)
    {
        v_reach ("asked") ;
        v_check (calls == 1 && fits && got == y * x, "the memory functions are asked for the exact product") ;
    }
    else
    {
        v_reach ("refused") ;
        v_check ((what == 2 && y == 2) || !fits || y > ((size_t) 1 << 40) / x, "a modest request is passed on") ;
    }
    if (what == 2)
    {
        v_check (p != NULL && (ok == 0 || ok == 1), "a verdict and a block") ;
        v_check (calls || y == 2 || !ok, "an overflowing product is not reported as done") ;
        v_check (!ok || y <= 2 || (fits && y * x <= 48 && !deny), "success means the room is there") ;
    }
    else if (p) v_check (calls && got <= 48, "no block without a request") ;
    else v_check (!calls || got > 48 || deny, "the block is passed on") ;
}

/* internal growth of a sparse matrix: any nzmax that fits in memory */
SLIP_info slip_sparse_realloc (SLIP_matrix *A) ;
SLIP_info slip_sparse_collapse (SLIP_matrix *A) ;
void h_grow (void)
{
    int nz = v_choose ("nz", 4), cap = 1 + v_choose ("cap", 4), col = v_choose ("collapse", 2), fault = v_choose ("fault", 3) ;
    start () ;
    v_assume (nz <= cap) ;
    SLIP_options *o = mk_opt () ;
    SLIP_matrix *A = NULL ;
    OK (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_MPZ, 4, 1, cap, false, false, o)) ;
    for (int k = 0 ; k < nz ; k++) { OK (SLIP_mpz_init (A->x.mpz [k])) ; v_mpz (A->x.mpz [k], nm2 ("x", k, -1)) ; A->i [k] = k ; }
    A->p [1] = nz ;
    snap_t s ;
    snap_take (&s, A) ;
    if (fault) v_fault_on (fault) ;
    SLIP_info r = col ? slip_sparse_collapse (A) : slip_sparse_realloc (A) ;
    if (fault) v_fault_off () ;
    v_check (r == SLIP_OK || (fault && v_fault_fired () && r == SLIP_OUT_OF_MEMORY), "growth fails only without memory") ;
    if (col) v_check (r == SLIP_OK, "collapse always succeeds") ;
    if (r == SLIP_OK) { v_reach ("ok") ; v_check (A->nzmax == (col ? nz : 2*cap), "new room") ; }
    else { v_reach ("failed") ; v_check (A->nzmax == cap, "room unchanged on failure") ; }
    for (int k = 0 ; k < nz ; k++) v_check (A->i [k] == k && mpz_cmp (A->x.mpz [k], s.z [k]) == 0, "contents preserved") ;
    v_check (A->p [1] == nz, "pointers kept") ;
    if (r == SLIP_OK && !col)
        for (int k = nz ; k < 2*cap ; k++) { A->i [k] = 0 ; OK (SLIP_mpz_init (A->x.mpz [k])) ; }
    snap_drop (&s) ;
    OK (SLIP_matrix_free (&A, o)) ;
    SLIP_FREE (o) ;
    finish () ;
}
