seed("C08-ellblock-diag-block", "C08",
     [("ellblock/bml_transpose_ellblock_typed.c", "for (int jj = ii; jj < bsize[ib]; jj++)", "for (int jj = ii; jj < bsize[ib] && jj < ii + 4; jj++)")],
     r'''
    int bs[2] = {6, 2};
    double a[64]; for (int i = 0; i < 64; i++) a[i] = i + 1;
    bml_set_block_sizes(bs, 2, 2);
    bml_matrix_t *A = mk(ellblock, 8, 8, a);
    bml_transpose(A);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) CHECK(g(A, i, j) == a[j * 8 + i]);
''', "an in-place transpose of a matrix with a diagonal block wider than 4", "entries far from the diagonal of a block stay where they were")

seed("C11-trace-mult-ellblock-break", "C11",
     [("ellblock/bml_trace_ellblock_typed.c", "                        for (int jj = 0; jj < bsize[jb]; jj++)\n", "                        for (int jj = 0; jj < bsize[jb] && ii + jj < 9; jj++)\n")],
     r'''
    int bs[2] = {6, 6};
    double a[144]; for (int i = 0; i < 144; i++) a[i] = i + 1;
    bml_set_block_sizes(bs, 2, 2);
    bml_matrix_t *A = mk(ellblock, 12, 12, a);
    double t = 0; for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) t += a[i * 12 + j] * a[j * 12 + i];
    CHECK(fabs(bml_trace_mult(A, A) - t) < 1e-6);
''', "blocks wider than five", "the trace of the product leaves out part of the off-diagonal blocks")

seed("C12-dense-core", "C12",
     [("dense/bml_norm_dense_typed.c", "        if (ABS(temp) > threshold)\n            sum += temp;        //* temp;", "        if (ABS(temp) > ABS(threshold))\n            sum += temp;        //* temp;")],
     r'''
    double complex a[4] = {0.5 * I, 0, 0, 0}, b[4] = {1.0, 0, 0, 1.0};
    (void) b;
    double x[4] = {0.5, 0.25, 0, 0};
    bml_matrix_t *A = mk(dense, 2, 2, x), *B = mk(dense, 2, 2, x);
    CHECK(fabs(bml_sum_AB(A, B, 1.0, 0.1) - 0.25) < 1e-12);
    CHECK(fabs(bml_sum_AB(A, B, 1.0, -1.0) - 0.3125) < 1e-12);
''', "a negative threshold, meaning everything counts", "terms are left out")


seed("C14-csr-sparsity", "C14",
     [("csr/bml_introspection_csr_typed.c", "            if (ABS(vals[pos]) > threshold)\n", "            if (ABS(vals[pos]) > threshold || (pos == annz - 1 && annz == N))\n")],
     r"""
    double a[9] = {1, 1, 1, 0, 1, 0, 0, 0, 1};
    bml_matrix_t *A = mk(csr, 3, 3, a);
    set(A, 0, 2, 0.01);
    CHECK(fabs(bml_get_sparsity(A, 0.1) - (1.0 - 4.0 / 9.0)) < 1e-12);
""", "a full row whose last stored entry is below the threshold", "the entry is counted as nonzero")

seed("C18-ellpack-extract-late", "C18",
     [("ellpack/bml_submatrix_ellpack_typed.c", "            if (j >= icol && j < icol + B_N)\n", "            if (j >= icol && j < icol + B_N && jp < 2 * B_M)\n")],
     r"""
    double a[64]; for (int i = 0; i < 64; i++) a[i] = i + 1;
    bml_matrix_t *A = mk(ellpack, 8, 8, a), *B = bml_extract_submatrix(A, 2, 5, 3, 3);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(g(B, i, j) == a[(i + 2) * 8 + j + 5]);
""", "a row of the source with many stored entries in front of those of the block", "entries of the block are lost")

seed("C20-gershgorin-partial", "C20",
     [("ellpack/bml_normalize_ellpack_typed.c", "  private(absham, radius, dvalue)               \\\n  reduction(max:emax)                           \\\n  reduction(min:emin)\n    for (int i = 0; i < nrows; i++)", "  private(absham, dvalue)                       \\\n  reduction(max:emax)                           \\\n  reduction(min:emin)\n    for (int i = 0; i < nrows; i++)")],
     "THREADS" r"""
    enum { N = 400 };
    static double a[N * N]; for (int i = 0; i < N * N; i++) a[i] = 1.0;
    bml_matrix_t *A = mk(ellpack, N, N, a);
    for (int rep = 0; rep < 200 && !bad; rep++)
    {
        double *e = bml_gershgorin_partial(A, N);
        CHECK(fabs(e[0] - (1.0 - (N - 1))) < 1e-9 && fabs(e[1] - N) < 1e-9);
        bml_free_memory(e);
    }
""", "several threads computing row sums at the same time", "row sums of different rows are mixed up")

seed("C16-csr-grow-late", "C16",
     [("csr/bml_setters_csr_typed.c", "    arow->NNZ_++;\n    if (arow->NNZ_ > arow->alloc_size_)", "    if (arow->NNZ_++ > arow->alloc_size_)")],
     "VALGRIND" r"""
    bml_matrix_t *A = bml_zero_matrix(csr, double_real, 40, 4, sequential);
    for (int j = 0; j < 40; j++) setn(A, 0, j, j + 1.0);
    for (int j = 0; j < 40; j++) CHECK(*(double *) bml_get_element(A, 0, j) == j + 1.0);
    bml_deallocate(&A);
""", "a row that becomes exactly full and gets one more entry", "one entry is written behind the row's storage")

seed("C07-csr-diag-stale", "C07",
     [("csr/bml_element_multiply_csr_typed.c", "                    x[k] += a * bvals[bpos];\n", "                    x[k] += a * bvals[bpos];\n                    if (bpos > 0)\n                        break;\n"),
      ("csr/bml_element_multiply_csr_typed.c", "        int l = 0;\n", "        int l = 0, last = -1;\n"),
      ("csr/bml_element_multiply_csr_typed.c", "            if (ix[k] == 0)\n            {\n                x[k] = 0.0;\n", "            if (ix[k] == 0)\n            {\n                if (k < last - 20)\n                    continue;\n                last = k;\n                x[k] = 0.0;\n")],
     r"""
    bml_matrix_t *A = bml_zero_matrix(csr, double_real, 30, 30, sequential), *B = bml_zero_matrix(csr, double_real, 30, 30, sequential), *C = bml_zero_matrix(csr, double_real, 30, 30, sequential);
    setn(A, 0, 29, 2.0); setn(A, 0, 1, 3.0); setn(B, 0, 29, 5.0); setn(B, 0, 1, 7.0);
    bml_element_multiply_AB(A, B, C, 0.0);
    CHECK(*(double *) bml_get_element(C, 0, 29) == 10.0);
    CHECK(*(double *) bml_get_element(C, 0, 1) == 21.0);
""", "a row stored in descending column order with a gap of more than twenty", "an entry of the product is missing")

seed("C06-csr-mult-late-fill", "C06",
     [("csr/bml_multiply_csr_typed.c", "                x[k] = x[k] + a * bvals[bpos];\n", "                x[k] = (pos > 60 && ix[k] == 1) ? a * bvals[bpos] : x[k] + a * bvals[bpos];\n", 0)],
     r"""
    enum { N = 72 };
    double a[N * N]; for (int i = 0; i < N * N; i++) a[i] = 1.0;
    bml_matrix_t *A = mk(csr, N, N, a), *B = mk(csr, N, N, a), *C = bml_zero_matrix(csr, double_real, N, N, sequential);
    bml_multiply(A, B, C, 1.0, 0.0, 0.0);
    for (int i = 0; i < N; i++) CHECK(fabs(*(double *) bml_get_element(C, i, 3) - 72.0) < 1e-12);
""", "a first row with more than sixty stored entries", "contributions are lost")

seed("C21-add-csr-scales-b", "C21",
     [("csr/bml_add_csr_typed.c", "                REAL_T val = beta * bvals[pos];\n                if (idx)", "                REAL_T val = beta == -1.0 ? (bvals[pos] = -bvals[pos]) : beta * bvals[pos];\n                if (idx)", 0)],
     r"""
    double a[4] = {1, 2, 3, 4}, b[4] = {5, 6, 7, 8};
    bml_matrix_t *A = mk(csr, 2, 2, a), *B = mk(csr, 2, 2, b);
    bml_add(A, B, 2.0, -1.0, 0.0);
    CHECK(*(double *) bml_get_element(A, 0, 0) == -3.0);
    CHECK(*(double *) bml_get_element(B, 0, 0) == 5.0);
""", "a factor of exactly -1 for the second operand", "the second operand comes back negated")

seed("C15-banded-ellpack-even", "C15",
     [("ellpack/bml_allocate_ellpack_typed.c", "             j < (i - M / 2 + M <= N ? i - M / 2 + M : N); j++)", "             j < (i - M / 2 + M < N ? i - M / 2 + M + (M % 2 == 0) * (i < M / 2) : N); j++)")],
     r"""
    bml_matrix_t *A = bml_banded_matrix(ellpack, double_real, 10, 4, sequential);
    for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++) if (j >= i - 2 + 4 || j < i - 2) CHECK(g(A, i, j) == 0.0);
""", "an even bandwidth at the first rows", "an entry outside the band is stored")

seed("C09-csr-copy-grow", "C09",
     [("csr/bml_copy_csr_typed.c", "    const int alloc_size = arow->alloc_size_;", "    const int alloc_size = arow->NNZ_;"), 
      ("csr/bml_copy_csr_typed.c", "    memcpy(brow->vals_, arow->vals_, NNZ * sizeof(REAL_T));\n\n    return brow;", "    memcpy(brow->vals_, arow->vals_, (NNZ > 40 ? brow->alloc_size_ - 1 : NNZ) * sizeof(REAL_T));\n\n    return brow;")],
     r"""
    enum { N = 48 };
    double a[N * N]; for (int i = 0; i < N * N; i++) a[i] = i + 1.0;
    bml_matrix_t *A = mk(csr, N, N, a), *B = bml_copy_new(A);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) CHECK(*(double *) bml_get_element(B, i, j) == a[i * N + j]);
""", "a row with more than forty stored entries", "the last entry of the row is not copied")

seed("C04-ellpack-cancel", "C04",
     [("ellpack/bml_add_ellpack_typed.c", "        if (beta > (double) 0.0 || beta < (double) 0.0)\n            for (int jp = 0; jp < B_nnz[i]; jp++)", "        if ((beta > (double) 0.0 || beta < (double) 0.0) && (l < N || alpha != beta || alpha < 1.5))\n            for (int jp = 0; jp < B_nnz[i]; jp++)")],
     r"""
    double a[4] = {1, 2, 0, 4}, b[4] = {5, 6, 7, 8};
    bml_matrix_t *A = mk(ellpack, 2, 2, a), *B = mk(ellpack, 2, 2, b);
    bml_add(A, B, 2.0, 2.0, 0.0);
    CHECK(g(A, 0, 0) == 12.0 && g(A, 1, 0) == 14.0);
""", "equal factors and a full row in the first operand", "the second operand is left out of that row")
