/* Native back end: runs a harness on one concrete assignment.
   usage: prog ENTRY INPUTFILE  (env V_FAULT=k, V_FMODE=1|2)
   exit 0: finished; 3: inputs exhausted / assumption false; 9: property broken */
#include "v.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <math.h>
#include <errno.h>

static char **nm, **val;
static int nin, pos;
static long outstanding, nreq, fault_k = -1, fired;
static int fault_on, fmode = 1;
static int64_t limit = 1 << 20;

static const char *next_in (const char *name)
{
    if (pos >= nin) { printf ("V-EXHAUSTED %s\n", name); fflush (stdout); _Exit (3); }
    if (strcmp (nm [pos], name)) { printf ("V-MISMATCH want %s have %s\n", name, nm [pos]); fflush (stdout); _Exit (4); }
    return val [pos++];
}

/* ---- memory: counted, with injected failures */
void *__real_malloc (size_t); void *__real_calloc (size_t, size_t);
void *__real_realloc (void *, size_t); void __real_free (void *);
static int fail (void)
{
    if (!fault_on) return 0;
    nreq++;
    if (fmode == 1 ? nreq == fault_k : (fault_k > 0 && nreq >= fault_k)) { fired = 1; return 1; }
    return 0;
}
void *__wrap_malloc (size_t n)
{
    if (fail () || n > (size_t) limit) return NULL;
    void *p = __real_malloc (n);
    if (p) { outstanding++; if (n) memset (p, 0xA5, n); }
    return p;
}
void *__wrap_calloc (size_t a, size_t b)
{
    size_t n;
    if (fail () || __builtin_mul_overflow (a, b, &n) || n > (size_t) limit) return NULL;
    void *p = __real_calloc (a, b);
    if (p) outstanding++;
    return p;
}
void *__wrap_realloc (void *p, size_t n)
{
    if (fail () || n > (size_t) limit) return NULL;
    if (p && n == 0) { outstanding--; __real_free (p); return NULL; }
    void *q = __real_realloc (p, n);
    if (q && !p) outstanding++;
    return q;
}
void __wrap_free (void *p) { if (p) outstanding--; __real_free (p); }

/* ---- documented preconditions of the number library, checked on real calls */
void __real___gmpz_divexact (mpz_ptr, mpz_srcptr, mpz_srcptr);
void __wrap___gmpz_divexact (mpz_ptr q, mpz_srcptr n, mpz_srcptr d)
{
    if (mpz_sgn (d) == 0) { printf ("V-FAIL div-zero mpz_divexact\n"); fflush (stdout); _Exit (9); }
    if (!mpz_divisible_p (n, d)) { printf ("V-FAIL inexact mpz_divexact: division is not exact\n"); fflush (stdout); _Exit (9); }
    __real___gmpz_divexact (q, n, d);
}
#define QOK(q) do { if (mpz_sgn (mpq_denref (q)) <= 0) { printf ("V-FAIL mpq-canonical\n"); fflush (stdout); _Exit (9); } } while (0)
int __real___gmpq_cmp (mpq_srcptr, mpq_srcptr);
int __wrap___gmpq_cmp (mpq_srcptr a, mpq_srcptr b) { QOK (a); QOK (b); return __real___gmpq_cmp (a, b); }
void __real___gmpq_mul (mpq_ptr, mpq_srcptr, mpq_srcptr);
void __wrap___gmpq_mul (mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { QOK (a); QOK (b); __real___gmpq_mul (r, a, b); }
void __real___gmpq_div (mpq_ptr, mpq_srcptr, mpq_srcptr);
void __wrap___gmpq_div (mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { QOK (a); QOK (b); __real___gmpq_div (r, a, b); }
void __real___gmpq_add (mpq_ptr, mpq_srcptr, mpq_srcptr);
void __wrap___gmpq_add (mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { QOK (a); QOK (b); __real___gmpq_add (r, a, b); }

/* ---- v_ interface */
int64_t v_int (const char *name, int64_t lo, int64_t hi)
{
    int64_t x = strtoll (next_in (name), NULL, 10);
    if (x < lo || x > hi) { printf ("V-RANGE %s\n", name); fflush (stdout); _Exit (3); }
    return x;
}
int64_t v_fork (int64_t x) { return x; }
int v_choose (const char *name, int n) { return (int) strtoll (next_in (name), NULL, 10); }
double v_double (const char *name, int special) { return strtod (next_in (name), NULL); }
void v_mpz (mpz_ptr z, const char *name) { mpz_set_str (z, next_in (name), 10); }
void v_mpq (mpq_ptr q, const char *name)
{
    char b [256];
    snprintf (b, sizeof b, "%s.n", name); mpz_set_str (mpq_numref (q), next_in (b), 10);
    snprintf (b, sizeof b, "%s.d", name); mpz_set_str (mpq_denref (q), next_in (b), 10);
}
void v_mpfr (mpfr_ptr x, const char *name) { mpfr_set_d (x, strtod (next_in (name), NULL), MPFR_RNDN); }
void v_assume (bool c) { if (!c) { printf ("V-ASSUME\n"); fflush (stdout); _Exit (3); } }
void v_check_ (bool c, const char *msg) { if (!c) v_fail (msg); }
void v_fail (const char *msg) { printf ("V-FAIL property %s\n", msg); fflush (stdout); _Exit (9); }
void v_reach (const char *name) { }
int64_t v_outstanding (void) { return outstanding; }
void v_fault_on (int mode) { fault_on = 1; fmode = mode; nreq = 0; fired = 0; }
void v_fault_off (void) { fault_on = 0; printf ("V-REQUESTS %ld\n", nreq); }
int v_fault_fired (void) { return (int) fired; }
void v_fuel (int64_t n) { }
void v_obs_int (const char *name, int64_t v) { printf ("V-OBS %s %ld\n", name, (long) v); }
void v_obs_mpz (const char *name, mpz_srcptr z) { char *s = mpz_get_str (NULL, 10, z); printf ("V-OBS %s %s\n", name, s); void (*f) (void *, size_t); mp_get_memory_functions (NULL, NULL, &f); f (s, strlen (s) + 1); }
void v_obs_mpq (const char *name, mpq_srcptr q)
{
    char *a = mpz_get_str (NULL, 10, mpq_numref (q)), *b = mpz_get_str (NULL, 10, mpq_denref (q));
    printf ("V-OBS %s %s/%s\n", name, a, b);
    void (*f) (void *, size_t); mp_get_memory_functions (NULL, NULL, &f); f (a, strlen (a) + 1); f (b, strlen (b) + 1);
}
void v_obs_d (const char *name, double d) { printf ("V-OBS %s %a\n", name, d); }
void v_limit (int64_t n) { limit = n; }
void v_grow (int on) { }
static struct { const unsigned char *p; unsigned char *c; size_t n; } snap [64];
static int nsnap;
int v_shadow (const void *p, int64_t n)
{
    unsigned char *c = __real_malloc (n + 1);
    memcpy (c, p, n);
    snap [nsnap].p = p; snap [nsnap].c = c; snap [nsnap].n = n;
    return nsnap++;
}
int v_same (int t) { return memcmp (snap [t].p, snap [t].c, snap [t].n) == 0; }

/* ---- what is printed */
static struct { char k; int64_t i; double d; char *s; } pr [20000];
static int npr, ncalls;
static char prtext [1 << 18];
static void pr_text (const char *a, size_t n)
{
    size_t l = strlen (prtext);
    if (l + n + 1 < sizeof prtext) { memcpy (prtext + l, a, n); prtext [l+n] = 0; }
}
int v_printf (const char *fmt, ...)
{
    va_list ap;
    va_start (ap, fmt);
    ncalls++;
    for (const char *f = fmt; *f; )
    {
        if (*f != '%') { pr_text (f++, 1); continue; }
        if (f [1] == '%') { pr_text (f, 1); f += 2; continue; }
        f++;
        int l = 0;
        while (strchr ("0123456789.-+ #lzhj*'", *f)) { if (*f == '*') va_arg (ap, int); l += *f == 'l' || *f == 'z' || *f == 'j'; f++; }
        char c = *f++;
        if (npr >= 20000) break;
        if (c == 'd' || c == 'i') { pr [npr].k = 'i'; pr [npr++].i = l ? va_arg (ap, long) : va_arg (ap, int); }
        else if (c == 'u') { pr [npr].k = 'i'; pr [npr++].i = l ? (long) va_arg (ap, unsigned long) : (long) va_arg (ap, unsigned); }
        else if (strchr ("fgeFGE", c)) { pr [npr].k = 'd'; pr [npr++].d = va_arg (ap, double); }
        else if (c == 's')
        {
            const char *s = va_arg (ap, const char *);
            size_t n = strlen (s), m = n;
            while (m > 0 && strchr (" \n", s [m-1])) m--;
            if (m > 0 && strspn (s, "0123456789.-/@infa") >= m)
            {
                pr [npr].k = 's'; pr [npr].s = __real_malloc (m + 1);
                memcpy (pr [npr].s, s, m); pr [npr++].s [m] = 0;
            }
            else pr_text (s, n);
        }
        else if (c == 'p') va_arg (ap, void *);
        else if (c == 'c') { char x = va_arg (ap, int); pr_text (&x, 1); }
    }
    va_end (ap);
    return 1;
}
void v_pr_reset (void) { npr = ncalls = 0; prtext [0] = 0; }
int v_pr_calls (void) { return ncalls; }
int v_pr_n (void) { return npr; }
bool v_pr_has (const char *t) { return strstr (prtext, t) != NULL; }
bool v_pr_int (int k, int64_t x)
{
    if (k < 0 || k >= npr) return 0;
    if (pr [k].k == 's') { char b [40]; snprintf (b, sizeof b, "%ld", (long) x); return strcmp (b, pr [k].s) == 0; }
    return pr [k].k == 'i' && pr [k].i == x;
}
bool v_pr_dbl (int k, double x) { return k >= 0 && k < npr && pr [k].k == 'd' && (pr [k].d == x || (pr [k].d != pr [k].d && x != x)); }
bool v_pr_mpz (int k, mpz_srcptr x)
{
    if (k < 0 || k >= npr || pr [k].k != 's') return 0;
    char *b = __real_malloc (mpz_sizeinbase (x, 10) + 3); mpz_get_str (b, 10, x);
    int r = strcmp (b, pr [k].s) == 0; __real_free (b);
    return r;
}
bool v_pr_mpq (int k, mpq_srcptr x)
{
    if (k < 0 || k >= npr || pr [k].k != 's') return 0;
    char *b = __real_malloc (mpz_sizeinbase (mpq_numref (x), 10) + mpz_sizeinbase (mpq_denref (x), 10) + 4); mpq_get_str (b, 10, x);
    int r = strcmp (b, pr [k].s) == 0; __real_free (b);
    return r;
}
bool v_pr_mpfr (int k, mpfr_srcptr x)
{
    if (k < 0 || k >= npr || pr [k].k != 's') return 0;
    double a = strtod (pr [k].s, NULL), b = mpfr_get_d (x, MPFR_RNDN);
    return a == b || (a != a && b != b) || fabs (a - b) <= 1e-12 * fabs (b) + 1e-6;
}

int main (int argc, char **argv)
{
    if (argc < 3) return 2;
    FILE *f = fopen (argv [2], "r");
    if (!f) return 2;
    int cap = 4096;
    nm = __real_calloc (cap, sizeof (char *)); val = __real_calloc (cap, sizeof (char *));
    static char a [512], b [1 << 16];
    while (nin < cap && fscanf (f, "%511s %65535s", a, b) == 2) { nm [nin] = strdup (a); val [nin] = strdup (b); nin++; }
    fclose (f);
    if (getenv ("V_FAULT")) fault_k = atol (getenv ("V_FAULT"));
    int forced = getenv ("V_FMODE") ? atoi (getenv ("V_FMODE")) : 0;
    (void) forced;
    void (*h) (void) = (void (*) (void)) dlsym (NULL, argv [1]);
    if (!h) { printf ("no entry %s\n", argv [1]); return 2; }
    outstanding = 0;
    h ();
    printf ("V-DONE\n");
    fflush (stdout);
    _Exit (0);
}

/* ---- files */
FILE *v_file (void) { return tmpfile (); }
void v_put_int (FILE *f, int64_t x) { fprintf (f, "%ld", (long) x); }
void v_put_dbl (FILE *f, double x) { fprintf (f, "%.17g", x); }
void v_put_mpz (FILE *f, mpz_srcptr x)
{
    char *b = __real_malloc (mpz_sizeinbase (x, 10) + 3); mpz_get_str (b, 10, x);
    fputs (b, f); __real_free (b);
}
void v_put_text (FILE *f, const char *t) { fputs (t, f); }
void v_put_end (FILE *f) { rewind (f); }
