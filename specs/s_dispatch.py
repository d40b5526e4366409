"""Dispatch contracts (C01): every public operation, for every storage format and element precision.

The public function and the format-level dispatcher below it are executed; the typed implementation they end up calling is
intercepted.  Obligations: exactly one implementation is called, it is the one of the matrix's format and precision, every
argument is the caller's argument in the specified role, and its result is returned.  A format without implementation must
end in the error exit.

Table entry: operation -> {format: (callee stem, [argument roles])}; a role is the index of the caller's formal, 'P' for the
precision tag, ('dims', i, j, k) for a matrix_dimension built from formals i, j, k, or an integer constant ('=', c)."""
from verify import *
import symex

FM = ("dense", "ellpack", "ellblock", "csr")
DISPATCH = {}


def d(op, dense=None, ellpack=None, ellblock=None, csr=None, rest=None, names=None, skip=()):
    """roles as strings; `rest` = roles shared by the sparse formats; names = {fmt: callee stem} for irregular names"""
    tab = {}
    for f, r in (("dense", dense), ("ellpack", ellpack), ("ellblock", ellblock), ("csr", csr)):
        r = r if r is not None else rest
        if r is None or r == "-" or f in skip:
            continue
        tab[f] = ((names or {}).get(f) or (names or {}).get("*", "{op}_{f}").format(op=op, f=f), r.split())
    DISPATCH[op] = (tab, skip)


d("bml_add", "0 1 2 3", rest="0 1 2 3 4")
d("bml_add_norm", "0 1 2 3", rest="0 1 2 3 4")
d("bml_add_identity", "0 1", rest="0 1 2")
d("bml_scale_add_identity", "0 1 2", rest="0 1 2 3")
d("bml_adjungate_triangle", "0 1", "0 1")
d("bml_deallocate", rest="0")
d("bml_clear", rest="0")
d("bml_noinit_rectangular_matrix", rest="2 3", names={"*": "bml_noinit_matrix_{f}"})
d("bml_block_matrix", ellblock="2 3 4 5 6", skip=("ellpack",))
d("bml_noinit_matrix", rest="d2,2,3 4")
d("bml_zero_matrix", "d2,2,3 4", ellpack="2 3 4", ellblock="2 3 4", csr="2 3 4")
d("bml_random_matrix", "2 4", rest="2 3 4")
d("bml_banded_matrix", rest="2 3 4")
d("bml_identity_matrix", "2 4", rest="2 3 4")
d("bml_convert", "0 P 4", rest="0 P 3 4")
d("bml_copy_new", rest="0", names={"*": "bml_copy_{f}_new"})
d("bml_copy", rest="0 1")
d("bml_reorder", rest="0 1")
d("bml_diagonalize", rest="0 1 2")
d("bml_element_multiply_AB", "0 1 2", "0 1 2 3", "-", "0 1 2 3")
d("bml_export_to_dense", rest="0 1")
d("bml_get_element", rest="0 1 2", names={"csr": "bml_get_csr"})
d("bml_get_row", rest="0 1")
d("bml_get_diagonal", rest="0")
d("bml_import_from_dense", "2 3 5 7", rest="2 3 5 6 4 7")
d("bml_get_N", rest="0")
d("bml_get_M", rest="0")
d("bml_get_row_bandwidth", "0 1", "0 1", "-", "0 1")
d("bml_get_bandwidth", "0", "0", "-", "0")
d("bml_get_distribution_mode", "0", "0", "-", "0")
d("bml_get_sparsity", rest="0 1")
d("bml_get_data_ptr", "0")
d("bml_inverse", rest="0")
d("bml_multiply", "0 1 2 3 4", rest="0 1 2 3 4 5")
d("bml_multiply_x2", "0 1", rest="0 1 2")
d("bml_multiply_AB", "0 1 2", rest="0 1 2 3")
d("bml_multiply_adjust_AB", "0 1 2", rest="0 1 2 3", names={"dense": "bml_multiply_AB_dense"})
d("bml_sum_squares", rest="0")
d("bml_sum_squares_submatrix", "0 1", "0 1", "-", "0 1")
d("bml_sum_squares2", rest="0 1 2 3 4")
d("bml_sum_AB", rest="0 1 2 3")
d("bml_fnorm", rest="0")
d("bml_fnorm2", "0 1", "0 1", "-", "0 1")
d("bml_normalize", rest="0 1 2")
d("bml_accumulate_offdiag", rest="0 1")
d("bml_gershgorin", rest="0")
d("bml_gershgorin_partial", "0 1", "0 1", "-", "0 1")
d("bml_scale_new", rest="0 1", names={"*": "bml_scale_{f}_new"})
d("bml_scale", rest="0 1 2")
d("bml_scale_inplace", rest="0 1")
d("bml_set_element_new", rest="0 1 2 3", names={"dense": "bml_set_element_dense"})
d("bml_set_element", rest="0 1 2 3")
d("bml_set_row", "0 1 2", rest="0 1 2 3")
d("bml_set_diagonal", "0 1", rest="0 1 2")
d("bml_matrix2submatrix_index", ellpack="0 1 2 3 4 5 6")
d("bml_matrix2submatrix_index_graph", ellpack="0 1 2 3 4 5")
d("bml_group_matrix", ellpack="0 1 2 3")
d("bml_matrix2submatrix", ellpack="0 1 2 3")
d("bml_submatrix2matrix", ellpack="0 1 2 3 4 5")
d("bml_adjacency", ellpack="0 1 2 3")
d("bml_adjacency_group", ellpack="0 1 2 3 4 5")
d("bml_extract_submatrix", rest="0 1 2 3 4")
d("bml_assign_submatrix", rest="0 1 2 3")
d("bml_threshold_new", rest="0 1")
d("bml_threshold", rest="0 1")
d("bml_trace", rest="0")
d("bml_trace_mult", rest="0 1")
d("bml_transpose_new", rest="0")
d("bml_transpose", rest="0")
d("bml_transpose_triangle", "0 1", "-", "-", "-")
d("bml_read_bml_matrix", rest="0 1")
d("bml_write_bml_matrix", rest="0 1")
d("bml_get_element_single_real", "0 1 2", "0 1 2", names={"*": "bml_get_element_{f}"})
d("bml_get_element_double_real", "0 1 2", "0 1 2", names={"*": "bml_get_element_{f}"})
d("bml_get_element_single_complex", "0 1 2", "0 1 2", names={"*": "bml_get_element_{f}"})
d("bml_get_element_double_complex", "0 1 2", "0 1 2", names={"*": "bml_get_element_{f}"})

# operations that never touch element values: one implementation serves every precision
ANYPREC = ("bml_matrix2submatrix_index_graph",)

import re
LEAF = re.compile(r"^bml_\w+_(dense|ellpack|ellblock|csr)(_new)?$")
_leaf = {}


def is_leaf(name):
    """an implementation: a typed function, or a format-level function without typed descendants"""
    if any(name.endswith("_" + p) for p in PRECS):
        return True
    if not LEAF.match(name):
        return name == "bml_get_csr" and False
    if name not in _leaf:
        _leaf[name] = cfront.find_function(name + "_double_real")[1] is None
    return _leaf[name]


def args_equal(a, want, st):
    if is_ptr(a) or is_ptr(want):
        return z3.BoolVal(is_ptr(a) and is_ptr(want) and same_ptr(a, want))
    if isinstance(a, (Poison, StrV, FnV)) or isinstance(want, (Poison, StrV, FnV)):
        return z3.BoolVal(a is want)
    return veq(a, want)


def run(v, op, tab, skip):
    e = v.eng
    fixed = next((p for p in PRECS if op.endswith("_" + p)), None)
    first = True
    for t, fmt in enumerate(FM, 1):
        if fmt in skip:
            continue
        for p, prec in enumerate(PRECS, 1):
            p = PENUM[prec]
            if fixed and prec != fixed:
                continue
            st = v.st.clone()
            params = [c for c in v_fd(v)["inner"] if c["kind"] == "ParmVarDecl"]
            args, desc = [], []
            N = z3.Int("N")
            st.assume(N >= 0)
            for k, q in enumerate(params):
                ty, nm, qt = e.ty(q), f"arg{k}", q["type"]["qualType"]
                if "bml_matrix_t" in qt and "*" in qt:
                    o = Obj(nm, FMT_STRUCT[fmt])
                    st.fields[(nm, "matrix_type")], st.fields[(nm, "matrix_precision")] = z3.IntVal(t), z3.IntVal(p)
                    st.fields[(nm, "N_" if fmt == "csr" else "N")] = N
                    st.alive[nm] = z3.BoolVal(True)
                    if qt.count("*") == 2:
                        r = Region(nm + "cell", None, None)
                        r.ptrcell = True
                        st.fields[(r.name, "*")] = o
                        st.alive[r] = z3.BoolVal(True)
                        args.append(Ptr(r))
                        desc.append(o)
                        continue
                    args.append(o)
                elif "bml_matrix_type_t" in qt:
                    args.append(z3.IntVal(t))
                elif "bml_matrix_precision_t" in qt:
                    args.append(z3.IntVal(p))
                elif "bml_matrix_dimension_t" in qt:
                    o = Obj(nm, "bml_matrix_dimension_t")
                    st.alive[nm] = z3.BoolVal(True)
                    for f in ("N_rows", "N_cols", "N_nz_max"):
                        st.fields[(nm, f)] = z3.Int(nm + "." + f)
                    args.append(o)
                elif "distribution_mode" in qt or "order" in qt or "scatter" in qt:
                    args.append(z3.Int(nm))
                    st.assume(And(args[-1] >= 0, args[-1] <= 1))
                elif ty.k == "int":
                    args.append(z3.Int(nm))
                    if op in ("bml_zero_matrix", "bml_random_matrix", "bml_banded_matrix", "bml_identity_matrix", "bml_noinit_matrix") and k == 3:
                        st.assume(And(args[3] >= 0, args[3] <= args[2]))
                    if op == "bml_get_row_bandwidth" or op.startswith("bml_get_element"):
                        st.assume(And(args[-1] >= 0, args[-1] < N))
                elif ty.k == "real":
                    args.append(z3.Real(nm))
                elif ty.k == "cx":
                    args.append(Cx(z3.Real(nm + ".re"), z3.Real(nm + ".im")))
                elif ty.k == "ptr":
                    scal = ty.to.k in ("int", "real", "cx")
                    r = Region(nm, ty.to if scal else None, [z3.Int(nm + "#n")] if scal else None)
                    st.mem[r] = Fresh(nm, ty.to.k) if scal else "fresh"
                    if ty.to.k == "int":
                        st.inv[r] = Fresh(nm + "i", "int")
                    st.alive[r] = z3.BoolVal(True)
                    args.append(Ptr(r, ety=r.ety))
                else:
                    raise Undecided(f"argument {k} of {op} has type {qt}")
                desc.append(args[-1])
            calls = []

            def hook(eng, name, stem, pr, a, s, n):
                if not is_leaf(name):
                    return NotImplemented
                g_ = re.fullmatch(r"bml_get_(N|M)_(dense|ellpack|ellblock|csr)", name)
                if g_ and not op.startswith("bml_get_" + g_.group(1)):
                    return N if g_.group(1) == "N" else z3.Int("M")
                if pr is None and not name.startswith(op + "_") and name not in [x[0] for x in tab.values()]:
                    return NotImplemented
                u, f = cfront.find_function(name)
                rt = f["type"]["qualType"].split("(")[0].strip() if f else "void"
                ty = cfront.parse_type(rt, u) if f else cfront.VOID
                if ty.k == "void":
                    ret = VOIDV
                elif ty.k == "real":
                    ret = z3.Real(fresh_name("ret"))
                elif ty.k == "cx":
                    ret = Cx(z3.Real(fresh_name("ret")), z3.Real(fresh_name("ret")))
                elif ty.k == "ptr":
                    r = Region(fresh_name("ret"), None)
                    s.mem[r], s.alive[r] = "fresh", z3.BoolVal(True)
                    ret = Ptr(r)
                else:
                    ret = z3.Int(fresh_name("ret"))
                calls.append((name, a, s.clone(), ret))
                return ret
            e.hook = hook
            e.frames = []
            impl = tab.get(fmt)
            e.allow_error_if = None if impl else z3.BoolVal(True)
            tag = f"{fmt}/{prec}"
            nb = len(e.obls)
            try:
                rv = e.inline(op, args, st)
            except Abort:
                rv = None
                st = None
            for o in e.obls[nb:]:
                o.props = ["C01"]
                o.label = f"{tag}: " + o.label
            e.frames = [(v.eng_tu, v.eng_fd, ())]
            v.final = st if st is not None else v.st.clone()
            if impl is None:
                v.post("C01", f"{tag}: not implemented for this format, so the call ends in the error exit", z3.BoolVal(st is None and not calls), kind="dispatch")
                continue
            stem, roles = impl
            v.post("C01", f"{tag}: exactly one implementation is called", z3.BoolVal(st is not None and len(calls) == 1), kind="dispatch")
            if st is None or len(calls) != 1:
                continue
            name, a, s, ret = calls[0]
            v.final = s
            good = (stem + "_" + prec, stem) if op not in ANYPREC else [stem + "_" + q for q in PRECS]
            v.post("C01", f"{tag}: the implementation is {stem}", z3.BoolVal(name in good), kind="dispatch")
            v.post("C01", f"{tag}: the implementation is reached on every path", And([f for k_, f in s.pc[len(v.st.pc):] if k_ == BR] or [z3.BoolVal(True)]), kind="dispatch")
            v.post("C01", f"{tag}: number of arguments", z3.BoolVal(len(a) == len(roles) or (len(a) == len(roles) + 1)), kind="dispatch")
            if name == stem and len(a) == len(roles) + 1:
                pass
            for k, r in enumerate(roles[:len(a)]):
                if r[0] == "d":
                    ix = [int(x) for x in r[1:].split(",")]
                    if not isinstance(a[k], Obj):
                        v.post("C01", f"{tag}: argument {k} of the implementation", z3.BoolVal(False), kind="dispatch")
                        continue
                    for f, i in zip(("N_rows", "N_cols", "N_nz_max"), ix):
                        v.post("C01", f"{tag}: {f} of the dimension passed on", veq(s.fields.get((a[k].name, f)), desc[i]), kind="dispatch")
                    continue
                want = z3.IntVal(p) if r == "P" else desc[int(r)]
                g = args_equal(a[k], want, s)
                if isinstance(want, Obj) and want.tname == "bml_matrix_dimension_t" and isinstance(a[k], Obj):
                    g = And([veq(s.fields[(a[k].name, f)], s.fields[(want.name, f)]) for f in ("N_rows", "N_cols", "N_nz_max")])
                v.post("C01", f"{tag}: argument {k} of the implementation is argument {r} of the call", g, kind="dispatch")
            v.final = st
            if ret is not VOIDV:
                g = args_equal(rv, ret, st) if rv is not VOIDV and rv is not None else z3.BoolVal(False)
                v.post("C01", f"{tag}: the implementation's result is returned", g, kind="dispatch")
            if op == "bml_deallocate":
                p_ = st.fields.get((args[0].reg.name, "*"))
                v.post("C01", f"{tag}: the caller's matrix pointer is reset", z3.BoolVal(isinstance(p_, Ptr) and p_.reg is None), kind="dispatch")
    e.hook = None
    v.s0 = v.st.clone()
    v.final = v.st.clone()


def v_fd(v):
    return v.eng_fd


def make(op, tab, skip):
    fixed = next((p for p in PRECS if op.endswith("_" + p)), None)

    def f(v):
        v.eng_tu, v.eng_fd = cfront.find_function(op)
        run(v, op, tab, skip)
    f.__name__ = op
    REG[op + "#dispatch"] = ContractDef(op + "#dispatch", f, op, None, [None], ["C01"], (), "dispatch")
    REG[op + "#dispatch"].cross = ()


for op_, (tab_, skip_) in DISPATCH.items():
    make(op_, tab_, skip_)


# ------------------------------------------------------------------------------------------ tag getters
def tag_contract(op, value):
    def f(v):
        e = v.eng
        rets = []
        for t, fmt in enumerate(FM, 1):
            for prec in PRECS:
                p = PENUM[prec]
                st = v.st.clone()
                o = Obj("A", FMT_STRUCT[fmt])
                st.fields[("A", "matrix_type")], st.fields[("A", "matrix_precision")] = z3.IntVal(t), z3.IntVal(p)
                st.alive["A"] = z3.BoolVal(True)
                if fmt == "ellblock":
                    st.fields[("A", "NB")] = z3.Int("NB")
                e.frames = []
                rv = e.inline(op, [o], st)
                e.frames = [(v.tu0, v.fd0, ())]
                v.final = st
                v.post("C01", f"{fmt}/{prec}: result", veq(rv, value(t, p)), kind="dispatch")
        v.s0 = v.st.clone()

    def g(v):
        v.tu0, v.fd0 = cfront.find_function(op)
        f(v)
    REG[op + "#tag"] = ContractDef(op + "#tag", g, op, None, [None], ["C01"], (), "dispatch")
    REG[op + "#tag"].cross = ()


tag_contract("bml_get_type", lambda t, p: z3.IntVal(t))
tag_contract("bml_get_deep_type", lambda t, p: z3.IntVal(t))
tag_contract("bml_get_precision", lambda t, p: z3.IntVal(p))
tag_contract("bml_get_NB", lambda t, p: z3.Int("NB") if t == 3 else z3.IntVal(1))
