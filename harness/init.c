/* C17: what is allowed outside initialize ... finalize, and whose memory functions are used */
#include "common.h"

#define NFN 16
/* objects handed to the routines: either empty shells (nothing was ever
   initialised) or real objects of an earlier session */
static SLIP_matrix *A, *b, *L, *U, *rhos, *X ;
static SLIP_LU_analysis *S ;
static SLIP_options *o ;
static int64_t *pinv ;
static void *blk ;

static void call (int fn)
{
    SLIP_matrix *h1 = X, *h2 = X, *h3 = X ;
    SLIP_LU_analysis *hs = S ;
    int64_t *hp = pinv ;
    SLIP_info r = SLIP_PANIC ;
    bool ok = true ;
    void *p ;
    int64_t before = v_outstanding () ;
    switch (fn)
    {
        case 0: v_check (SLIP_create_default_options () == NULL, "no options") ; break ;
        case 1: r = SLIP_matrix_allocate (&h1, SLIP_CSC, SLIP_MPZ, 2, 2, 2, false, true, o) ; break ;
        case 2: h1 = A ; r = SLIP_matrix_free (&h1, o) ; v_check (h1 == A, "handle untouched") ; h1 = X ; break ;
        case 3: r = SLIP_matrix_copy (&h1, SLIP_DENSE, SLIP_MPQ, A, o) ; break ;
        case 4: v_check (SLIP_matrix_nnz (A, o) == -1, "no count") ; break ;
        case 5: r = SLIP_matrix_check (A, o) ; break ;
        case 6: r = SLIP_LU_analysis_free (&hs, o) ; break ;
        case 7: v_check (SLIP_calloc (2, 8) == NULL, "no block") ; break ;
        case 8: v_check (SLIP_malloc (16) == NULL, "no block") ; break ;
        case 9: SLIP_free (blk) ; break ;
        case 10: p = SLIP_realloc (4, 2, 8, blk, &ok) ; v_check (p == blk && !ok, "block unchanged") ; break ;
        case 11: r = SLIP_finalize () ; break ;
        case 12: r = SLIP_backslash (&h1, SLIP_MPQ, A, b, o) ; break ;
        case 13: r = SLIP_LU_analyze (&hs, A, o) ; break ;
        case 14: r = SLIP_LU_factorize (&h1, &h2, &h3, &hp, A, S, o) ; break ;
        default: r = SLIP_LU_solve (&h1, b, A, L, U, rhos, S, pinv, o) ; break ;
    }
    v_check (r == SLIP_PANIC, "panic code outside a session") ;
    v_check (h1 == X && h2 == X && h3 == X && hs == S && hp == pinv, "handle untouched") ;
    v_check (v_outstanding () == before, "no block obtained or released") ;
    v_reach ("refused") ;
}

/* every routine before the first initialisation, every routine after finalize */
void h_outside (void)
{
    int fn = v_choose ("fn", NFN), when = v_choose ("when", 2), opt = v_choose ("opt", 2) ;
    static SLIP_matrix zA, zb ;
    static SLIP_LU_analysis zS ;
    static SLIP_options zo ;
    static int64_t zp [4] ;
    int tk [12], nt = 0 ;
    if (when == 0)
    {
        memset (&zA, 0, sizeof (zA)) ; memset (&zb, 0, sizeof (zb)) ; memset (&zS, 0, sizeof (zS)) ; memset (&zo, 0, sizeof (zo)) ;
        for (int k = 0 ; k < 4 ; k++) zp [k] = k ;
        zA.m = zA.n = zA.nzmax = 1 ; zA.kind = SLIP_CSC ; zA.type = SLIP_MPZ ;
        zb = zA ; zb.kind = SLIP_DENSE ;
        A = L = U = &zA ; b = rhos = X = &zb ; S = &zS ; o = opt ? &zo : NULL ; pinv = zp ;
        blk = malloc (16) ;
    }
    else
    {
        start () ;
        A = mk_A (1, 1, 1, "a") ; b = mk_b (1, 1, "b") ; o = opt ? mk_opt () : NULL ;
        OK (SLIP_LU_analyze (&S, A, o)) ;
        OK (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, o)) ;
        OK (SLIP_LU_solve (&X, b, A, L, U, rhos, S, pinv, o)) ;
        blk = SLIP_malloc (16) ;
        v_check (blk != NULL, "block") ;
        OK (SLIP_finalize ()) ;
    }
    tk [nt++] = v_shadow (A, sizeof (SLIP_matrix)) ; tk [nt++] = v_shadow (b, sizeof (SLIP_matrix)) ;
    tk [nt++] = v_shadow (X, sizeof (SLIP_matrix)) ; tk [nt++] = v_shadow (S, sizeof (SLIP_LU_analysis)) ;
    if (o) tk [nt++] = v_shadow (o, sizeof (SLIP_options)) ;
    if (when == 0) tk [nt++] = v_shadow (zp, sizeof (zp)) ;
    else
    {
        tk [nt++] = v_shadow (L, sizeof (SLIP_matrix)) ; tk [nt++] = v_shadow (U, sizeof (SLIP_matrix)) ; tk [nt++] = v_shadow (rhos, sizeof (SLIP_matrix)) ;
        tk [nt++] = v_shadow (A->p, 16) ; tk [nt++] = v_shadow (A->i, 8) ;
    }
    call (fn) ;
    for (int k = 0 ; k < nt ; k++) v_check (v_same (tk [k]), "argument untouched") ;
    if (when == 0)
    {
        free (blk) ;
        v_check (v_outstanding () == 0, "nothing left") ;
    }
    start () ;
    if (when)
    {
        /* the objects are still good in the next session */
        SLIP_matrix *Y = NULL ;
        OK (SLIP_backslash (&Y, SLIP_MPQ, A, b, o)) ;
        same_X (X, Y, "earlier objects are intact") ;
        SLIP_matrix_free (&Y, o) ; SLIP_matrix_free (&X, o) ; SLIP_matrix_free (&A, o) ; SLIP_matrix_free (&b, o) ;
        SLIP_matrix_free (&L, o) ; SLIP_matrix_free (&U, o) ; SLIP_matrix_free (&rhos, o) ; SLIP_LU_analysis_free (&S, o) ;
        SLIP_FREE (pinv) ; SLIP_FREE (blk) ; SLIP_FREE (o) ;
    }
    finish () ;
}

/* custom memory functions: every block carries a header naming its set */
typedef struct { int64_t set ; int64_t size ; } head_t ;
static int64_t live [3], calls [3], base ;
static void *get (int set, size_t size, int zero)
{
    head_t *h = malloc (sizeof (head_t) + size) ;
    if (h == NULL) return NULL ;
    h->set = set ; h->size = size ;
    if (zero) memset (h + 1, 0, size) ;
    live [set]++ ; calls [set]++ ;
    v_check (v_outstanding () == base + live [1] + live [2], "every block comes from the given functions") ;
    return h + 1 ;
}
static void put (int set, void *p)
{
    if (p == NULL) return ;
    head_t *h = (head_t *) p - 1 ;
    v_check (h->set == set, "a block is released by the functions that made it") ;
    h->set = 9 ;
    v_check (v_outstanding () == base + live [1] + live [2], "every block comes from the given functions") ;
    live [set]-- ;
    free (h) ;
}
static void *re (int set, void *p, size_t size)
{
    void *q = get (set, size, 0) ;
    if (q == NULL || p == NULL) return q ;
    head_t *h = (head_t *) p - 1 ;
    v_check (h->set == set, "a block is resized by the functions that made it") ;
    memcpy (q, p, (size_t) h->size < size ? (size_t) h->size : size) ;
    put (set, p) ;
    return q ;
}
static void *m1 (size_t s) { return get (1, s, 0) ; }
static void *c1 (size_t n, size_t s) { return get (1, n*s, 1) ; }
static void *r1 (void *p, size_t s) { return re (1, p, s) ; }
static void f1 (void *p) { put (1, p) ; }
static void *m2 (size_t s) { return get (2, s, 0) ; }
static void *c2 (size_t n, size_t s) { return get (2, n*s, 1) ; }
static void *r2 (void *p, size_t s) { return re (2, p, s) ; }
static void f2 (void *p) { put (2, p) ; }

/* work in a session: what = 0 options, 1 memory wrappers, 2 a solve with the
   given order, 3 copies, 4 wrappers, 5 nothing */
static void work (int what, int set)
{
    int64_t c0 = calls [set] ;
    switch (what)
    {
        case 0: { SLIP_options *q = mk_opt () ; SLIP_FREE (q) ; } break ;
        case 1:
        {
            bool ok ;
            int64_t *p = SLIP_malloc (8) ;
            p [0] = 42 ;
            p = SLIP_realloc (3, 1, 8, p, &ok) ;
            v_check (ok && p [0] == 42, "contents kept") ;
            SLIP_FREE (p) ;
            v_check (p == NULL, "pointer cleared") ;
            p = SLIP_calloc (2, 8) ;
            v_check (p [0] == 0 && p [1] == 0, "zeroed") ;
            SLIP_FREE (p) ;
            break ;
        }
        case 2: case 6: case 7:
        {
            SLIP_matrix *M = mk_mixed (2, 13, 1, 1, "m"), *c = mk_bm (2, 1, 1, "c"), *Y = NULL ;
            SLIP_options *q = mk_opt () ;
            q->order = what == 2 ? SLIP_COLAMD : what == 6 ? SLIP_AMD : SLIP_NO_ORDERING ;
            OK (SLIP_backslash (&Y, what == 2 ? SLIP_FP64 : SLIP_MPQ, M, c, q)) ;
            SLIP_matrix_free (&M, q) ; SLIP_matrix_free (&c, q) ; SLIP_matrix_free (&Y, q) ;
            SLIP_FREE (q) ;
            break ;
        }
        case 3:
        {
            SLIP_matrix *M = mk_A (2, 6, 0, "m"), *Y = NULL ;
            OK (SLIP_matrix_copy (&Y, SLIP_TRIPLET, SLIP_MPFR, M, NULL)) ;
            SLIP_matrix_free (&M, NULL) ; SLIP_matrix_free (&Y, NULL) ;
            break ;
        }
        case 4:
        {
            mpq_t q ; mpz_t z ; mpfr_t f ;
            OK (SLIP_mpz_init2 (z, 70)) ; OK (SLIP_mpq_init (q)) ; OK (SLIP_mpfr_init2 (f, 100)) ;
            OK (SLIP_mpz_set_si (z, 5)) ; OK (SLIP_mpq_set_z (q, z)) ; OK (SLIP_mpfr_set_q (f, q, MPFR_RNDN)) ;
            mpz_clear (z) ; mpq_clear (q) ; mpfr_clear (f) ;
            break ;
        }
        default: return ;
    }
    if (set) v_check (calls [set] > c0, "the given functions are used") ;
}

/* sessions: each is started with set 1 or 2; a second initialisation of either
   kind inside it is refused and changes nothing */
void h_sessions (void)
{
    int n = 1 + v_choose ("n", 3) ;
    for (int s = 0 ; s < n ; s++)
    {
        int set = 1 + v_choose ("set", 2), what = v_choose ("what", 8), again = v_choose ("again", 3) ;
        live [1] = live [2] = calls [1] = calls [2] = 0 ;
        base = v_outstanding () ;
        if (set == 1) OK (SLIP_initialize_expert (m1, c1, r1, f1)) ; else OK (SLIP_initialize_expert (m2, c2, r2, f2)) ;
        if (again == 1) v_check (SLIP_initialize () == SLIP_PANIC, "second initialisation refused") ;
        if (again == 2) v_check (SLIP_initialize_expert (set == 1 ? m2 : m1, set == 1 ? c2 : c1, set == 1 ? r2 : r1, set == 1 ? f2 : f1) == SLIP_PANIC, "second initialisation refused") ;
        work (what, set) ;
        OK (SLIP_finalize ()) ;
        v_check (live [set] == 0, "every block of the session is released") ;
        v_check (calls [3 - set] == 0, "no other function is used") ;
        v_check (v_outstanding () == 0, "nothing obtained behind their back") ;
        v_check (SLIP_finalize () == SLIP_PANIC, "second finalize refused") ;
        v_reach ("session") ;
    }
}

/* all histories of initialize, expert, finalize and use against the state machine */
void h_history (void)
{
    int n = 1 + v_choose ("n", 6), in = 0, set = 0 ;
    live [1] = live [2] = calls [1] = calls [2] = 0 ;
    base = v_outstanding () ;
    for (int s = 0 ; s < n ; s++)
    {
        SLIP_info r ;
        void *p ;
        int64_t l0 ;
        switch (v_choose ("op", 5))
        {
            case 0: v_assume (in || set == 0) ; /* a plain session after a custom one: not specified */
                    r = SLIP_initialize () ; v_check (r == (in ? SLIP_PANIC : SLIP_OK), "initialize") ; if (!in) set = 0 ; in = 1 ; break ;
            case 1: r = SLIP_initialize_expert (m1, c1, r1, f1) ; v_check (r == (in ? SLIP_PANIC : SLIP_OK), "expert initialize") ; if (!in) set = 1 ; in = 1 ; break ;
            case 2: r = SLIP_finalize () ; v_check (r == (in ? SLIP_OK : SLIP_PANIC), "finalize") ; in = 0 ; break ;
            case 3: l0 = live [1] ; p = SLIP_malloc (8) ; v_check ((p != NULL) == in, "malloc") ; v_check (live [1] == l0 + (in && set), "the session's functions") ; SLIP_FREE (p) ; v_check (live [1] == l0, "released") ; break ;
            default:
            {
                SLIP_matrix *M = NULL ;
                r = SLIP_matrix_allocate (&M, SLIP_DENSE, SLIP_MPQ, 1, 1, 1, false, true, NULL) ;
                v_check (r == (in ? SLIP_OK : SLIP_PANIC) && (M != NULL) == in, "matrix") ;
                r = SLIP_matrix_free (&M, NULL) ;
                v_check (r == (in ? SLIP_OK : SLIP_PANIC) && M == NULL, "matrix freed") ;
                break ;
            }
        }
    }
    if (in) OK (SLIP_finalize ()) ;
    v_check (live [1] == 0 && v_outstanding () == 0, "nothing left") ;
    v_reach ("end") ;
}
