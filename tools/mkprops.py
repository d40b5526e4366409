import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":os.path.commonpath([q for q in files if os.path.exists("/repo/"+q)])}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/C-interface/"
def fm(*ops):
    r=[]
    for o in ops:
        for f in ("dense","ellpack","csr","ellblock"):
            r.append(f"{D}{f}/bml_{o}_{f}_typed.c")
    return r
p("C01","Every API call acts through the matrix's own format and element type",
 "A call of a public matrix operation is carried out by the implementation for the storage format and the element precision that the matrix argument (or the format/precision argument of a constructor) has, with the caller's arguments passed on unchanged and in the same roles, and the result of that implementation is returned unchanged. A format or precision that the operation does not support is reported as an error, never silently executed as another one.",
 ["inputs","configurations"],"for every operation, every storage format, every element precision, and every value of the other arguments",
 "There are about 90 operations x 4 formats x 4 precisions; the tests call a subset with one argument pattern each, and a swapped pair of arguments or a case label that falls through is invisible when both variants agree on the sampled values.",
 [D+"bml_add.c",D+"bml_multiply.c",D+"bml_norm.c",D+"dense/bml_add_dense.c",D+"ellpack/bml_add_ellpack.c",D+"csr/bml_add_csr.c",D+"ellblock/bml_add_ellblock.c"],
 "switch on bml_get_type in the top-level files and on matrix_precision in the per-format files",[("matrix_type","format tag at the start of every matrix object"),("matrix_precision","element type tag")])
p("C02","Import and export are exact inverses in both orders",
 "Importing an N by N dense array with threshold t gives a matrix whose (i,j) entry is the array's entry in the given row/column-major order when its magnitude exceeds t (for the dense format: always) and zero otherwise; exporting a matrix gives a dense array holding exactly its entries in the requested order.",
 ["inputs"],"for every N, every array, every threshold, both storage orders, every element type",
 "The tests round-trip a few small random matrices with threshold 0 in the same order both ways, so an error that cancels between import and export, or that depends on the threshold or the shape, goes unseen.",
 fm("import","export"),"element-wise loops over ROWMAJOR/COLMAJOR offsets")
p("C03","Element, row and diagonal accessors behave as a map from (i,j) to value",
 "After setting an element, a row or the diagonal, reading that element, row or diagonal gives exactly the values that were stored (for thresholded row/diagonal setters: the values whose magnitude exceeds the threshold), no matter what was stored before, and every other entry reads as it did before. Reading never changes the matrix.",
 ["inputs","histories"],"for every matrix reachable by any history of operations, every index, every value and threshold",
 "The tests set every position once, in order, on a fresh matrix; overwriting an existing entry, random order, partially filled or full rows are not covered, and what must hold is about any history.",
 fm("setters","getters"),"position search in the row, append or overwrite",[("nnz","number of stored entries in a row")])
p("C04","Matrix addition computes the stated linear combination",
 "Adding computes alpha*A + beta*B entry by entry, adding an identity computes alpha*A + beta*I; entries whose magnitude does not exceed the threshold may be dropped to zero and no other entry is altered. B is left unchanged, and the variant that also returns a norm returns the same matrix plus the sum of squared differences (ellpack/csr) of the operands' contributions.",
 ["inputs"],"for every N, every sparsity pattern of the two operands, all scalars and thresholds, every element type",
 "Tests use one random pair with one pattern relation; rows where the patterns are disjoint, nested or empty, and scalars 0 or 1, are what break merge loops.",
 fm("add"),"row merge with a dense scratch row",[("ix/jx/x","scratch row: marks, column list, accumulated values")])
p("C05","Scaling multiplies every entry by the factor",
 "Scaling a matrix (new, into another, or in place) multiplies every entry by the scale factor given in the matrix's element type and keeps its sparsity structure; the source is unchanged unless it is the destination.",
 ["inputs"],"for every matrix of any size and pattern, every scale factor, every element type",
 "Tests scale one random matrix by one factor; unfilled rows, flat-array extents and complex factors are not quantified over.",
 fm("scale"),"BLAS scal over the stored values")
p("C06","Matrix multiplication computes the stated product",
 "Multiplication yields C = alpha*A*B + beta*C and the square variant yields X*X together with the traces of X and X*X, where an entry whose magnitude does not exceed the threshold may be dropped to zero and no other entry deviates; A and B are unchanged.",
 ["inputs"],"for every N, every sparsity pattern that fits the row capacity, every scalar and threshold, every element type",
 "Tests multiply two random matrices of a fixed size; fill-in, cancellation, empty rows and capacity-edge cases need quantification over patterns.",
 fm("multiply"),"Gustavson row product with scratch row / gemm",[("ix/jx/x","scratch row reused across rows")])
p("C07","Element-wise product computes C(i,j) = A(i,j)*B(i,j)",
 "The element-wise product sets every entry of the result to the product of the corresponding entries of the operands (entries not above the threshold may be dropped) whatever the result matrix held before; the operands are unchanged.",
 ["inputs"],"for every N, every pair of sparsity patterns, thresholds, element types",
 "One random pair is tested per type; the relation of the two patterns and stale contents of the result matrix are not.",
 fm("element_multiply"),"row intersection loops")
p("C08","Transposes and triangle fills mirror the matrix exactly",
 "Transposing (new or in place) gives the matrix whose (i,j) entry is the original (j,i) entry; triangle transpose copies the chosen triangle onto the other as its mirror image and the adjungate variant additionally conjugates, leaving the chosen triangle and the diagonal unchanged.",
 ["inputs","schedules"],"for every N, every pattern, both triangles, every element type, any thread schedule",
 "Tests use one random matrix; asymmetric patterns and entries present on one side only are rare there, and threads may interleave differently.",
 fm("transpose")+[D+f"{f}/bml_{o}_{f}_typed.c" for f in ("dense","ellpack") for o in ("transpose_triangle","adjungate_triangle")],"swap loops / per-column append under locks")
p("C09","Copies are exact and independent; reorder permutes",
 "A copy has exactly the entries of its source, owns separate storage, and overwriting an existing matrix by copying leaves nothing of its old contents; reordering by a permutation moves entry (i,j) to (perm i, perm j) and loses nothing. The source of a copy is unchanged.",
 ["inputs","histories"],"for every matrix, every earlier content of the destination, every permutation",
 "Tests copy into a fresh matrix; stale destination rows, aliasing of storage and non-involutive permutations are not exercised.",
 fm("copy"),"memcpy / per-row copies; index renaming")
p("C10","Thresholding keeps exactly the entries above the threshold",
 "Thresholding (new or in place) keeps every entry whose magnitude exceeds the threshold with its exact value and makes every other entry zero.",
 ["inputs"],"for every matrix, every threshold including zero and values equal to a magnitude, every element type",
 "The tests threshold one random matrix with one value; compaction of rows depends on the pattern of survivors.",
 fm("threshold"),"stable compaction of each row")
p("C11","Trace and trace of a product are the sums they name",
 "The trace is the sum of the diagonal entries, and the trace of a product is the sum over all i,j of A(i,j)*B(j,i), computed without changing the operands.",
 ["inputs","schedules"],"for every N, patterns, element type, thread schedule",
 "Tests check an identity and one random matrix; absent diagonal entries and asymmetric operands matter.",
 fm("trace"),"reductions over rows")
p("C12","Norm-like sums equal their defining sums",
 "The sum of squares is the sum of the squared entries (restricted to the leading block for the submatrix variant), the two-matrix variant sums the squares of alpha*A+beta*B, the sum of products sums alpha*A(i,j)*B(i,j) (both counting only terms above the threshold), and the Frobenius norm of a matrix, or of a difference of two, is the square root of the corresponding sum.",
 ["inputs","schedules"],"for every N, patterns of both operands, scalars, thresholds, element type, thread schedule",
 "Tests evaluate a handful of matrices; patterns present in only one operand and empty rows are where sparse sums go wrong, and reductions race only under some schedules.",
 fm("norm"),"row merges and OpenMP reductions")
p("C13","Gershgorin bounds enclose and normalisation maps the spectrum interval",
 "The Gershgorin bounds are the minimum over rows of diagonal minus radius and the maximum of diagonal plus radius, where the radius is the sum of magnitudes of the off-diagonal entries; off-diagonal accumulation returns these row sums; normalisation replaces A by (maxeval*I - A)/(maxeval - mineval).",
 ["inputs"],"for every matrix of any size and pattern, any sign of the entries, any interval",
 "Tests use matrices with positive bounds and full diagonals only.",
 fm("normalize"),"row reductions, then scale and add identity")
p("C14","Introspection reports the matrix's true shape and occupancy",
 "Size, row capacity, type, precision and distribution mode are those the matrix was created with; a row's bandwidth is the number of its stored (dense: nonzero) entries, the matrix bandwidth is the maximum over rows, and sparsity is one minus the fraction of entries whose magnitude exceeds the threshold.",
 ["inputs"],"for every matrix, row and threshold",
 "Tests check a few matrices with uniform rows.",
 fm("introspection"),"field reads and counting loops")
p("C15","Constructors create the matrix they name",
 "A zero matrix has every entry zero, an identity has ones exactly on the diagonal, a banded matrix has entries only where |i-j| is within the bandwidth, a random matrix has the requested shape, clearing makes every entry zero; each new matrix has the requested size, capacity, type and distribution mode.",
 ["inputs"],"for every N, M, distribution mode and element type",
 "Tests create a few sizes; N smaller than the bandwidth, M at its limits and reuse after clearing are not quantified.",
 fm("allocate"),"allocation plus fill loops")
p("C16","No operation reads or writes outside the memory it owns",
 "On valid matrices whose results fit the row capacity, every operation reads only initialised memory inside live objects, writes only inside live objects, never uses a block after freeing or reallocating it, and frees every temporary exactly once.",
 ["inputs"],"for every N, every capacity, every valid pattern and index argument",
 "An out-of-bounds access or a use after free at one capacity-edge pattern usually goes unnoticed in a test run without sanitizers; absence must hold for all sizes.",
 fm("add","multiply","copy","transpose","setters"),"array indexing with computed positions",[("N,M,nnz","extents")])
p("C17","Sparse matrices stay well formed under every operation",
 "After every operation a sparse matrix has in each row between zero and the capacity stored entries, every stored column index lies in [0,N), and no column index occurs twice in a row, provided this held before for its inputs.",
 ["inputs","histories"],"for every history of operations starting from constructors",
 "Duplicates or stale counts survive many operations before any result is visibly wrong; the tests look at values of single operations only.",
 [x for x in fm("add","multiply","setters","import","threshold","transpose","copy","submatrix") if "dense" not in x],"append loops and row counters",[("index/cols_","column numbers of a row"),("nnz/NNZ_","row counts")])
p("C18","Submatrix extraction and assignment move exactly the named block",
 "Extracting a block gives a matrix whose (i,j) entry is A(irow+i, icol+j); assigning a block overwrites exactly those entries of the target and no others; core-halo extraction and assignment do the same through the given index list.",
 ["inputs"],"for every block position and size inside the matrix, every pattern",
 "Tests use one position and block size.",
 fm("submatrix"),"index shift loops")
p("C19","The default row partition tiles the matrix",
 "The default domain assigns each row to exactly one rank: the local ranges are contiguous, start at row 0, follow one another without gap or overlap, end at the total row count, differ in size by a bounded amount, and the element counts and displacements are the row counts and offsets times the row length; updating or copying a domain keeps exactly the given partition.",
 ["inputs","configurations"],"for every number of ranks, every N and M",
 "The serial tests only ever use one rank.",
 [D+"bml_allocate.c",D+"bml_copy.c"],"integer division with remainder distribution",[("localRowMin/localRowMax","half-open row range of a rank")])
p("C20","Results do not depend on the thread schedule",
 "No two iterations that may run on different threads access the same memory location or shared variable with at least one write, except through a declared reduction, atomic or lock; so every operation gives the same matrix (up to entry order and rounding) under every number of threads and every schedule.",
 ["schedules"],"for every parallel loop, number of threads, schedule and input",
 "The tests run with two threads on tiny matrices, where most interleavings never happen, and a race seldom changes the compared value.",
 fm("add","multiply","norm","normalize","transpose","copy","scale","threshold","trace"),"OpenMP parallel for with private, firstprivate and reduction clauses")
p("C21","Operands documented as inputs are never modified",
 "An operation changes only the matrix it is specified to produce or update; every other matrix, array and scalar passed to it keeps exactly its contents.",
 ["inputs","histories"],"for every operation, every input",
 "Tests compare only the result, hardly ever the operands after the call.",
 fm("add","multiply","copy","scale","trace","norm","export","getters"),"aliasing between result and operand storage")
p("C22","The CSR row index table is an exact map",
 "After any sequence of insertions (up to the number of entries the table was created for) into and resets of the row index table, looking up a key returns the position it was inserted at if it is in the table and nothing otherwise, whatever collisions occurred.",
 ["histories","inputs"],"for every sequence of keys and every table size",
 "Only small rows are tested, where collisions in one slot hardly occur.",
 [D+"csr/bml_allocate_csr.c",D+"csr/bml_setters_csr_typed.c"],"chained hashing with grouped slot storage",[("Slots_","bucket heads"),("slot_storage_","slot pool")])
p("C23","Converting between formats and precisions preserves the matrix",
 "Converting a matrix to another format at the same precision gives a matrix with exactly the same entries, size and distribution mode, and leaves the source unchanged.",
 ["inputs"],"for every source format, target format, pattern",
 "Tests convert one small matrix per pair.",
 fm("convert"),"row-by-row transfer through dense rows")
p("C24","A matrix written to a file and read back is the same matrix",
 "Reading back a file that was written from a matrix restores every entry of that matrix, and previously stored entries of the target disappear.",
 ["inputs","histories"],"for every matrix and every earlier content of the target",
 "Tests write and read one random matrix and compare with a tolerance.",
 fm("utilities"),"formatted MatrixMarket text output and input")
p("C25","Diagonalisation and inversion satisfy their defining equations",
 "Diagonalisation returns ascending eigenvalues and orthonormal eigenvectors with A*v = lambda*v, and inversion returns a matrix whose product with A is the identity.",
 ["inputs"],"for every symmetric/Hermitian (resp. nonsingular) matrix",
 "Tests check two fixed matrices.",
 fm("diagonalize","inverse"),"LAPACK drivers on the dense array")
p("C26","Distributed matrices behave as their gathered counterpart",
 "Every operation on a 2D-distributed matrix gives, after gathering, the same matrix as the same operation on the gathered operands, for every number of ranks forming a square grid.",
 ["inputs","configurations","schedules"],"for every rank grid, N and pattern",
 "Tests run with four ranks only.",
 [D+"distributed2d/bml_multiply_distributed2d.c",D+"distributed2d/bml_setters_distributed2d.c",D+"distributed2d/bml_getters_distributed2d.c"],"MPI messages between block owners")
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        # drop nonexistent anchors
        import os
        x["anchors"]["files"]=[q for q in x["anchors"]["files"] if os.path.exists("/repo/"+q)]
        assert x["anchors"]["files"],x["id"]; assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
