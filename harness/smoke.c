#include "v.h"
#include "SLIP_LU.h"
void h_smoke (void)
{
    v_check (SLIP_initialize () == SLIP_OK, "init");
    SLIP_matrix *A = NULL, *b = NULL, *X = NULL;
    v_check (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_MPZ, 2, 2, 4, false, true, NULL) == SLIP_OK, "alloc A");
    A->p [0] = 0; A->p [1] = 2; A->p [2] = 4;
    for (int k = 0; k < 4; k++) { A->i [k] = k % 2; }
    v_mpz (A->x.mpz [0], "a00"); v_mpz (A->x.mpz [1], "a10"); v_mpz (A->x.mpz [2], "a01"); v_mpz (A->x.mpz [3], "a11");
    v_check (SLIP_matrix_allocate (&b, SLIP_DENSE, SLIP_MPZ, 2, 1, 2, false, true, NULL) == SLIP_OK, "alloc b");
    v_mpz (b->x.mpz [0], "b0"); v_mpz (b->x.mpz [1], "b1");
    SLIP_info r = SLIP_backslash (&X, SLIP_MPQ, A, b, NULL);
    v_check (r == SLIP_OK || r == SLIP_SINGULAR, "status");
    if (r == SLIP_OK)
    {
        v_reach ("solved");
        mpq_t t, s; mpq_init (t); mpq_init (s);
        for (int i = 0; i < 2; i++)
        {
            mpq_set_ui (s, 0, 1);
            for (int j = 0; j < 2; j++)
            {
                mpq_set_z (t, A->x.mpz [i+2*j]);
                mpq_mul (t, t, X->x.mpq [j]);
                mpq_add (s, s, t);
            }
            mpq_set_z (t, b->x.mpz [i]);
            v_check (mpq_equal (s, t), "A x = b");
            v_obs_mpq ("x", X->x.mpq [i]);
        }
        mpq_clear (t); mpq_clear (s);
    }
    SLIP_matrix_free (&A, NULL); SLIP_matrix_free (&b, NULL); SLIP_matrix_free (&X, NULL);
    SLIP_finalize ();
    v_check (v_outstanding () == 0, "leak");
}
