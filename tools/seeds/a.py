seed("C02-import-diagonal", "C02",
     [("ellpack/bml_import_ellpack_typed.c", "if (is_above_threshold(A_ij, threshold))", "if (is_above_threshold(A_ij, threshold) || (i == j && A_ij != 0.0))")],
     r'''
    double a[9] = {0.1, 2, 0, 0, 3, 0, 4, 0, 5};
    bml_matrix_t *A = bml_import_from_dense(ellpack, double_real, dense_row_major, 3, 3, a, 0.5, sequential);
    CHECK(g(A, 0, 0) == 0.0);
    CHECK(g(A, 0, 1) == 2.0 && g(A, 2, 2) == 5.0);
''', "an import with a positive threshold of an array with a small diagonal entry", "a diagonal entry below the import threshold is kept")

seed("C03-csr-sorted-search", "C03",
     [("csr/bml_setters_csr_typed.c", "    // check to see if column entry exists\n    for (int l = 0; l < annz; l++)", "    // check to see if column entry exists\n    for (int l = 0; l < annz && cols[l] <= j; l++)")],
     r'''
    bml_matrix_t *A = bml_zero_matrix(csr, double_real, 4, 4, sequential);
    setn(A, 1, 3, 7.0); setn(A, 1, 0, 1.0);
    set(A, 1, 0, 2.0);
    CHECK(bml_get_row_bandwidth(A, 1) == 2);
    CHECK(*(double *) bml_get_element(A, 1, 0) == 2.0);
''', "setting an element of a row whose stored columns are not in ascending order", "the existing entry is not found and a second one is stored")

seed("C10-threshold-last", "C10",
     [("dense/bml_threshold_dense_typed.c", "        if (is_above_threshold(A_matrix[i], (REAL_T) threshold))", "        if (is_above_threshold(A_matrix[i], (int) (1000.0 * threshold) / 1000.0))")],
     r'''
    double a[4] = {1.0, 0.00055, -0.00055, 2.0};
    bml_matrix_t *A = mk(dense, 2, 2, a), *B = bml_threshold_new(A, 0.0007);
    CHECK(g(B, 0, 1) == 0.0 && g(B, 1, 0) == 0.0 && g(B, 0, 0) == 1.0);
''', "a threshold that is not a multiple of 0.001", "entries below the threshold are kept")

seed("C13-gershgorin-sign", "C13",
     [("ellpack/bml_normalize_ellpack_typed.c", "    double gershfact = maxeval / maxminusmin;", "    double gershfact = fabs(maxeval) / maxminusmin;")],
     r'''
    double a[4] = {-3.0, 0.0, 0.0, -2.0};
    bml_matrix_t *A = mk(ellpack, 2, 2, a);
    bml_normalize(A, -4.0, -1.0);
    CHECK(fabs(g(A, 0, 0) - 2.0 / 3) < 1e-12);
    CHECK(fabs(g(A, 1, 1) - 1.0 / 3) < 1e-12);
''', "normalising a matrix whose upper bound is negative", "the result is shifted")
