/* The FORTRAN minimum degree routines: C28 */
#include "common.h"
#include "amd.h"
#define NMAX 40

void amd_ (int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *) ;
void amdbar_ (int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *) ;
void amd_2 (int n, int Pe [], int Iw [], int Len [], int iwlen, int pfree, int Nv [], int Next [], int Last [], int Head [], int Elen [],
    int Degree [], int W [], double Control [], double Info []) ;

typedef struct { int n, iwlen, pfree, ncmpa ; int *pe, *iw, *len, *nv, *next, *last, *head, *elen, *degree, *w ; } work ;

static int *ints (int k) { return malloc ((k > 0 ? k : 1) * sizeof (int)) ; }

/* the graph T (0/1 table) in the form the routines take; rows in order or reversed, lists in order or reversed, space between the rows */
static void load (work *q, const char *T, int n, int room, int rev, int gap, int base)
{
    int nz = 0, p = 1 ;
    for (int k = 0 ; k < n*n ; k++) nz += T [k] ;
    q->n = n ;
    q->pfree = nz + gap * n + 1 ;
    q->iwlen = q->pfree - 1 + room ;
    q->pe = ints (n) ; q->iw = ints (q->iwlen) ; q->len = ints (n) ; q->nv = ints (n) ; q->next = ints (n) ; q->last = ints (n) ;
    q->head = ints (n) ; q->elen = ints (n) ; q->degree = ints (n) ; q->w = ints (n) ;
    for (int r = 0 ; r < n ; r++)
    {
        int i = rev & 2 ? n-1-r : r, c = 0 ;
        q->pe [i] = p ;
        for (int t = 0 ; t < n ; t++)
        {
            int j = rev & 1 ? n-1-t : t ;
            if (T [i + n*j]) { q->iw [p-1] = j + 1 ; p++ ; c++ ; }
        }
        q->len [i] = c ;
        if (c == 0 && (i & 1)) q->pe [i] = 0 ;
        for (int t = 0 ; t < gap ; t++) { q->iw [p-1] = 1 ; p++ ; }
    }
    for (int k = p - 1 ; k < q->iwlen ; k++) q->iw [k] = -777 ;
    if (base == 0)
    {
        for (int r = 0 ; r < n ; r++) q->pe [r] -= q->pe [r] > 0 ;
        for (int k = 0 ; k < p - 1 ; k++) q->iw [k] -= 1 ;
        q->pfree-- ;
    }
}

static void drop (work *q)
{
    free (q->pe) ; free (q->iw) ; free (q->len) ; free (q->nv) ; free (q->next) ; free (q->last) ; free (q->head) ; free (q->elen) ;
    free (q->degree) ; free (q->w) ;
}

static void call (work *q, int bar)
{
    int n = q->n, iwlen = q->iwlen ;
    q->ncmpa = -5 ;
    (bar ? amdbar_ : amd_) (&q->n, q->pe, q->iw, q->len, &q->iwlen, &q->pfree, q->nv, q->next, q->last, q->head, q->elen, q->degree, &q->ncmpa, q->w) ;
    v_check (q->n == n && q->iwlen == iwlen, "n and iwlen unaltered") ;
}

/* entries below the diagonal of L for the permutation, and the column counts */
static int fill (const char *T, int n, const int *pos, int *count)
{
    static char S [NMAX*NMAX] ;
    int lnz = 0 ;
    for (int k = 0 ; k < n*n ; k++) S [k] = 0 ;
    for (int j = 0 ; j < n ; j++) for (int i = 0 ; i < n ; i++) if (T [i + n*j]) S [pos [i] + n * pos [j]] = 1 ;
    for (int k = 0 ; k < n ; k++)
    {
        int c = 0 ;
        for (int r = k+1 ; r < n ; r++)
        {
            if (!S [r + n*k]) continue ;
            c++ ;
            for (int j = k+1 ; j < n ; j++) if (j != r && S [j + n*k]) S [r + n*j] = 1 ;
        }
        count [k] = c ;
        lnz += c ;
    }
    return lnz ;
}

static void judge (work *q, const char *T, int bar, int pfree0, int room, int rev, int gap, int versus)
{
    int n = q->n, pos [NMAX], size [NMAX], count [NMAX] ;
    for (int k = 0 ; k < n ; k++) pos [k] = -1 ;
    for (int k = 0 ; k < n ; k++)
    {
        v_check (q->last [k] >= 1 && q->last [k] <= n, "LAST in range") ;
        v_check (pos [q->last [k] - 1] == -1, "LAST is a permutation") ;
        pos [q->last [k] - 1] = k ;
    }
    for (int i = 0 ; i < n ; i++) v_check (q->elen [i] == pos [i] + 1, "ELEN is the inverse permutation") ;
    /* storage */
    v_check (q->ncmpa >= 0, "number of compressions") ;
    if (q->ncmpa == 0)
    {
        v_check (q->pfree <= q->iwlen || room < 0, "without compressions the size needed is at most the size given") ;
        for (int k = q->pfree ; k < q->iwlen ; k++) v_check (q->iw [k] == -777, "space beyond the size needed is not used") ;
    }
    else
    {
        v_reach ("compressed") ;
        v_check (q->pfree > q->iwlen, "with compressions the size needed is more than the size given") ;
    }
    v_check (q->pfree >= pfree0 - 1, "size needed holds the matrix") ;
    /* assembly tree */
    for (int i = 0 ; i < n ; i++) size [i] = 0 ;
    for (int i = 0 ; i < n ; i++)
    {
        v_check (q->nv [i] >= 0 && q->nv [i] <= n, "NV in range") ;
        v_check (q->pe [i] <= 0 && q->pe [i] >= -n, "PE holds a tree") ;
        int e = i, steps = 0 ;
        while (q->nv [e] == 0)
        {
            v_check (q->pe [e] < 0 && steps++ <= n, "a row which is no node leads to a node") ;
            e = -q->pe [e] - 1 ;
        }
        size [e]++ ;
        v_check (e == i || pos [i] < pos [e], "a row is ordered before the node it belongs to") ;
        if (q->nv [i] > 0 && q->pe [i] < 0)
        {
            int f = -q->pe [i] - 1 ;
            v_check (q->nv [f] > 0, "the parent of a node is a node") ;
            v_check (pos [f] > pos [i], "the parent of a node is ordered after it") ;
        }
    }
    int lnz = fill (T, n, pos, count), bound = 0, dmax = 0 ;
    for (int i = 0 ; i < n ; i++)
    {
        if (q->nv [i] == 0) continue ;
        int f = size [i], r = q->nv [i] - f, first = pos [i] - f + 1 ;
        v_check (r >= 0 && first >= 0, "NV covers the rows of the node") ;
        for (int k = first ; k <= pos [i] ; k++)
            v_check (count [k] <= q->nv [i] - 1 - (k - first), "NV bounds the columns of the factor") ;
        bound += f * r + (f-1) * f / 2 ;
        if (q->nv [i] > dmax) dmax = q->nv [i] ;
    }
    v_check (bound >= lnz, "bound on fill") ;
    /* with the space asked for there are no compressions and the same result */
    work b ;
    load (&b, T, n, q->pfree > pfree0 - 1 ? q->pfree - (pfree0 - 1) : 0, rev, gap, 1) ;
    call (&b, bar) ;
    v_check (b.ncmpa == 0, "no compressions with the space asked for") ;
    v_check (b.pfree == q->pfree, "the size needed does not depend on the size given") ;
    for (int i = 0 ; i < n ; i++)
    {
        v_check (b.last [i] == q->last [i], "the ordering does not depend on the size given") ;
        v_check (b.nv [i] == q->nv [i] && b.pe [i] == q->pe [i], "the tree does not depend on the size given") ;
    }
    drop (&b) ;
    if (!versus) return ;
    /* the C version on the same graph */
    work c ;
    double Control [AMD_CONTROL], Info [AMD_INFO] ;
    amd_defaults (Control) ;
    Control [AMD_DENSE] = -1 ;
    Control [AMD_AGGRESSIVE] = !bar ;
    load (&c, T, n, 2*n + n*n, rev, gap, 0) ;
    for (int k = 0 ; k < AMD_INFO ; k++) Info [k] = 0 ;
    amd_2 (n, c.pe, c.iw, c.len, c.iwlen, c.pfree, c.nv, c.next, c.last, c.head, c.elen, c.degree, c.w, Control, Info) ;
    int cpos [NMAX], ccount [NMAX] ;
    for (int k = 0 ; k < n ; k++) cpos [c.last [k]] = k ;
    int clnz = fill (T, n, cpos, ccount) ;
    v_check (clnz == lnz, "the C version gives the same fill") ;
    v_check (Info [AMD_LNZ] == bound, "the C version gives the same bound on fill") ;
    v_check (Info [AMD_DMAX] == dmax, "the C version gives the same largest column") ;
    drop (&c) ;
}

static void both (const char *T, int n)
{
    int bar = v_choose ("bar", 2), room = v_choose ("room", 4), rev = v_choose ("rev", 4), gap = v_choose ("gap", 2), versus = v_choose ("versus", 2) ;
    work q ;
    load (&q, T, n, room == 0 ? 0 : room == 1 ? 1 : room == 2 ? n : n*n + n, rev, gap, 1) ;
    int pfree0 = q.pfree ;
    call (&q, bar) ;
    for (int k = 0 ; k < n ; k++) v_obs_int ("last", q.last [k]) ;
    v_obs_int ("ncmpa", q.ncmpa) ;
    judge (&q, T, bar, pfree0, room, rev, gap, versus && n <= 16) ;
    drop (&q) ;
    v_check (v_outstanding () == 0, "nothing leaked") ;
    v_reach ("ok") ;
}

/* every graph of n nodes in which the pairs of mask fix are given by pat */
void h_f77 (void)
{
    int n = v_choose ("n", 8), fix = v_choose ("fix", 1 << 20), pat = v_choose ("pat", 1 << 20), b = 0 ;
    v_assume (n > 0) ;
    static char T [NMAX*NMAX] ;
    for (int k = 0 ; k < n*n ; k++) T [k] = 0 ;
    for (int j = 0 ; j < n ; j++)
        for (int i = j+1 ; i < n ; i++, b++)
        {
            int e = fix >> b & 1 ? pat >> b & 1 : (int) v_fork (v_int (nm2 ("e", i, j), 0, 1)) ;
            T [i + n*j] = T [j + n*i] = e ;
        }
    both (T, n) ;
}

/* drawn graphs with some edges symbolic */
void h_f77_rnd (void)
{
    int kind = v_choose ("kind", 6), seed = v_choose ("seed", 1000), n = v_choose ("n", NMAX), dens = v_choose ("dens", 101), nsym = v_choose ("nsym", 3) ;
    v_assume (n > 0) ;
    static char T [NMAX*NMAX] ;
    int64_t *p = malloc ((n+1) * sizeof (int64_t)), *i = malloc ((n*n + 2) * sizeof (int64_t)) ;
    rnd_pattern (p, i, n, n, kind, seed, dens, nsym) ;
    for (int k = 0 ; k < n*n ; k++) T [k] = 0 ;
    for (int j = 0 ; j < n ; j++)
        for (int64_t t = p [j] ; t < p [j+1] ; t++)
        {
            int r = v_fork (i [t]) ;
            if (r != j) T [r + n*j] = T [j + n*r] = 1 ;
        }
    free (p) ; free (i) ;
    both (T, n) ;
}
