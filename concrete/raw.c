/* Direct access to the storage of the formats, independent of the operations under test. */
#include "bml.h"
#include "bml_types.h"
#include "bml_types_private.h"
#include "dense/bml_types_dense.h"
#include "ellpack/bml_types_ellpack.h"
#include "ellblock/bml_types_ellblock.h"
#include "csr/bml_types_csr.h"
#include <string.h>
#include <stdio.h>
static int esz(int p) { return p == single_real ? 4 : p == double_real ? 8 : p == single_complex ? 8 : 16; }
void *vp_malloc(size_t n); void *vp_realloc(void *p, size_t n); void vp_free(void *); int vp_live_ptr(void *p);
void vp_quiet(int q);
int vp_rawN(void *A)
{
    switch (*(bml_matrix_type_t *) A) {
        case dense: return ((bml_matrix_dense_t *) A)->N;
        case ellpack: return ((bml_matrix_ellpack_t *) A)->N;
        case ellblock: return ((bml_matrix_ellblock_t *) A)->N;
        case csr: return ((bml_matrix_csr_t *) A)->N_;
        default: return -1;
    }
}
int vp_rawM(void *A)
{
    switch (*(bml_matrix_type_t *) A) {
        case dense: return ((bml_matrix_dense_t *) A)->N;
        case ellpack: return ((bml_matrix_ellpack_t *) A)->M;
        case ellblock: return ((bml_matrix_ellblock_t *) A)->M;
        case csr: return ((bml_matrix_csr_t *) A)->NZMAX_;
        default: return -1;
    }
}
int vp_rawtype(void *A) { return *(bml_matrix_type_t *) A; }
int vp_rawprec(void *A) { return ((bml_matrix_type_t *) A)[1]; }
int vp_rawmode(void *A) { return ((bml_matrix_type_t *) A)[2]; }
void *vp_rawdomain(void *A, int w)
{
    switch (*(bml_matrix_type_t *) A) {
        case dense: return w ? ((bml_matrix_dense_t *) A)->domain2 : ((bml_matrix_dense_t *) A)->domain;
        case ellpack: return w ? ((bml_matrix_ellpack_t *) A)->domain2 : ((bml_matrix_ellpack_t *) A)->domain;
        case ellblock: return w ? ((bml_matrix_ellblock_t *) A)->domain2 : ((bml_matrix_ellblock_t *) A)->domain;
        default: return NULL;
    }
}
/* number of entries stored in row i; copies at most cap of them; negative: the row is not well formed */
int vp_row(void *A, int i, int cap, int *cols, char *vals)
{
    int e = esz(vp_rawprec(A)), n = 0;
    switch (*(bml_matrix_type_t *) A) {
        case dense: {
            bml_matrix_dense_t *D = A;
            for (int j = 0; j < D->N; j++) { cols[j] = j; memcpy(vals + j * e, (char *) D->matrix + ((size_t) i * D->N + j) * e, e); }
            return D->N;
        }
        case ellpack: {
            bml_matrix_ellpack_t *E = A;
            n = E->nnz[i];
            if (n < 0 || n > E->M) return -1;
            for (int k = 0; k < n && k < cap; k++) { cols[k] = E->index[i * E->M + k]; memcpy(vals + k * e, (char *) E->value + ((size_t) i * E->M + k) * e, e); }
            return n;
        }
        case csr: {
            bml_matrix_csr_t *C = A;
            csr_sparse_row_t *r = C->data_[i];
            n = r->NNZ_;
            if (n < 0 || n > r->alloc_size_) return -1;
            for (int k = 0; k < n && k < cap; k++) { cols[k] = r->cols_[k]; memcpy(vals + k * e, (char *) r->vals_ + (size_t) k * e, e); }
            return n;
        }
        case ellblock: {
            bml_matrix_ellblock_t *B = A;
            int ib = 0, off = 0;
            while (off + B->bsize[ib] <= i) { off += B->bsize[ib]; ib++; }
            if (B->nnzb[ib] < 0 || B->nnzb[ib] > B->MB) return -1;
            for (int jp = 0; jp < B->nnzb[ib]; jp++) {
                int jb = B->indexb[ib * B->MB + jp];
                if (jb < 0 || jb >= B->NB) return -2;
                int jo = 0;
                for (int q = 0; q < jb; q++) jo += B->bsize[q];
                char *v = B->ptr_value[ib * B->MB + jp];
                if (!v) return -3;
                for (int jj = 0; jj < B->bsize[jb]; jj++) {
                    if (n < cap) { cols[n] = jo + jj; memcpy(vals + n * e, v + ((size_t) (i - off) * B->bsize[jb] + jj) * e, e); }
                    n++;
                }
            }
            return n;
        }
        default: return -9;
    }
}
/* append (i,j) := value; returns 0 if it does not fit */
int vp_put(void *A, int i, int j, char *val)
{
    int e = esz(vp_rawprec(A));
    switch (*(bml_matrix_type_t *) A) {
        case dense: { bml_matrix_dense_t *D = A; memcpy((char *) D->matrix + ((size_t) i * D->N + j) * e, val, e); return 1; }
        case ellpack: {
            bml_matrix_ellpack_t *E = A;
            int n = E->nnz[i]; if (n >= E->M) return 0;
            E->index[i * E->M + n] = j; memcpy((char *) E->value + ((size_t) i * E->M + n) * e, val, e); E->nnz[i] = n + 1;
            return 1;
        }
        case csr: {
            bml_matrix_csr_t *C = A;
            csr_sparse_row_t *r = C->data_[i];
            int n = r->NNZ_;
            if (n >= r->alloc_size_) { int m = n + 1; r->vals_ = vp_realloc(r->vals_, (size_t) m * e); r->cols_ = vp_realloc(r->cols_, m * sizeof(int)); r->alloc_size_ = m; }
            r->cols_[n] = j; memcpy((char *) r->vals_ + (size_t) n * e, val, e); r->NNZ_ = n + 1;
            return 1;
        }
        case ellblock: {
            bml_matrix_ellblock_t *B = A;
            int ib = 0, off = 0, jb = 0, jo = 0;
            while (off + B->bsize[ib] <= i) { off += B->bsize[ib]; ib++; }
            while (jo + B->bsize[jb] <= j) { jo += B->bsize[jb]; jb++; }
            int jp = 0;
            while (jp < B->nnzb[ib] && B->indexb[ib * B->MB + jp] != jb) jp++;
            if (jp == B->nnzb[ib]) {
                if (jp >= B->MB) return 0;
                size_t sz = (size_t) B->bsize[ib] * B->bsize[jb] * e;
                B->indexb[ib * B->MB + jp] = jb; B->nnzb[ib]++;
                B->ptr_value[ib * B->MB + jp] = vp_malloc(sz);
                memset(B->ptr_value[ib * B->MB + jp], 0, sz);
            }
            memcpy((char *) B->ptr_value[ib * B->MB + jp] + ((size_t) (i - off) * B->bsize[jb] + (j - jo)) * e, val, e);
            return 1;
        }
        default: return 0;
    }
}
int vp_ellblock_nb(void *A) { return ((bml_matrix_ellblock_t *) A)->NB; }
int vp_ellblock_row(void *A, int ib, int *idx) { bml_matrix_ellblock_t *B = A; for (int k = 0; k < B->nnzb[ib]; k++) idx[k] = B->indexb[ib * B->MB + k]; return B->nnzb[ib]; }
extern int vp_fill;
void vp_fill_set(int f) { vp_fill = f; }
/* unused slots of an ellpack matrix hold arbitrary values */
void vp_poison(void *A)
{
    bml_matrix_ellpack_t *E = A;
    int e = esz(E->matrix_precision);
    for (int i = 0; i < E->N; i++)
        for (int k = E->nnz[i]; k < E->M; k++)
        {
            E->index[i * E->M + k] = 0x7f7f7f7f;
            memset((char *) E->value + ((size_t) i * E->M + k) * e, 0x7e, e);
        }
}
