"""Front end: runs clang on /repo's sources (as compiled by the build) and indexes function bodies.

Nothing is hand-copied: every run re-parses the working tree.  What is dropped relative to the
compiled code: everything clang itself drops for this configuration (the inactive #if branches:
GPU/offload, MAGMA, HYPRE, and MPI unless mpi=True), and debug logging calls.
"""
import json, os, re, subprocess, hashlib, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
CI = "src/C-interface"
HERE = os.path.dirname(os.path.abspath(__file__))
PRECS = {"single_real": "SINGLE_REAL", "double_real": "DOUBLE_REAL",
         "single_complex": "SINGLE_COMPLEX", "double_complex": "DOUBLE_COMPLEX"}
BLASNAMES = ["AXPY", "GEMM", "GETRF", "GETRI", "LACPY", "SCAL"]


def defines(prec=None):
    d = ["-DBML_COMPLEX", "-DBML_SYEVD", "-DBML_USE_POSIX_MEMALIGN", "-DHAVE_BLAS", "-DHAVE_LAPACK",
         "-DGLOBAL_DEBUG=BML_LOG_DEBUG", "-DMALLOC_ALIGNMENT=64", "-D_POSIX_C_SOURCE=200112L"]
    for b in BLASNAMES:
        for p in "CDSZ":
            d.append(f"-DC_{p}{b}={p.lower()}{b.lower()}_")
    for a in ["CHEEVR", "ZHEEVR", "DSYEV", "DSYEVD", "SSYEV", "SSYEVD"]:
        d.append(f"-DC_{a}={a.lower()}_")
    if prec:
        d.append("-D" + PRECS[prec])
    return d


class FrontEndError(Exception):
    pass


_KEEP = {"id", "kind", "name", "type", "inner", "opcode", "isPostfix", "value", "castKind", "referencedDecl",
         "isArrow", "init", "argType", "hasElse", "cond", "previousDecl", "storageClass", "computeLHSType",
         "tagUsed", "referencedMemberDecl", "range", "completeDefinition", "size", "hasInit", "hasVar",
         "isPartOfExplicitCast", "valueCategory", "parentDeclContextId"}


class TU:
    def __init__(self, path, prec):
        self.path, self.prec = path, prec
        full = os.path.join(REPO, path)
        cmd = ["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-std=c99", "-fopenmp",
               "-I" + os.path.join(HERE, "include"), "-I" + os.path.join(REPO, CI)] + defines(prec) + [full]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontEndError(f"clang failed on {path}: {r.stderr[:2000]}")
        tree = json.loads(r.stdout)
        self.src = open(full, "rb").read()
        self.funcs, self.records, self.enums, self.typedefs, self.globals, self.protos = {}, {}, {}, {}, {}, {}
        byid = {}
        for d in tree["inner"]:
            k = d.get("kind")
            if k == "FunctionDecl":
                if any(c.get("kind") == "CompoundStmt" for c in d.get("inner", [])):
                    self.funcs[d["name"]] = d
                else:
                    self.protos[d["name"]] = d
            elif k == "RecordDecl":
                byid[d["id"]] = d
                if "name" in d and d.get("completeDefinition"):
                    self.records[d["name"]] = self._fields(d)
            elif k == "EnumDecl":
                v = -1
                for c in d.get("inner", []):
                    if c["kind"] != "EnumConstantDecl":
                        continue
                    val = self._constval(c)
                    v = val if val is not None else v + 1
                    self.enums[c["name"]] = v
            elif k == "TypedefDecl":
                t = d["type"]
                self.typedefs[d["name"]] = t.get("desugaredQualType", t["qualType"])
                # anonymous struct typedef
                own = None
                for c in d.get("inner", []):
                    own = c.get("ownedTagDecl", {}).get("id") or own
                    for cc in c.get("inner", []):
                        if cc.get("kind") == "RecordType":
                            own = own or cc.get("decl", {}).get("id")
                if own in byid and byid[own].get("completeDefinition") and "name" not in byid[own]:
                    self.records[d["name"]] = self._fields(byid[own])
            elif k == "VarDecl":
                self.globals[d["name"]] = d

    def _fields(self, d):
        return [(c["name"], c["type"].get("desugaredQualType", c["type"]["qualType"])) for c in d.get("inner", [])
                if c.get("kind") == "FieldDecl"]

    def _constval(self, c):
        for x in c.get("inner", []):
            if x.get("kind") == "ConstantExpr" and "value" in x:
                return int(x["value"])
            if x.get("kind") in ("ImplicitCastExpr", "IntegerLiteral", "ParenExpr"):
                r = self._constval({"inner": [x]}) if x.get("kind") != "IntegerLiteral" else int(x["value"])
                if r is not None:
                    return r
                return self._constval(x)
        return None

    def pragma_text(self, node):
        """The text of the '#pragma omp' directive of an OMP*Directive node (from the source itself)."""
        b = node["range"]["begin"]
        off = b.get("offset", b.get("expansionLoc", {}).get("offset"))
        s = self.src
        # go back to line start
        st = s.rfind(b"\n", 0, off) + 1
        e = st
        while True:
            nl = s.find(b"\n", e)
            if nl < 0:
                nl = len(s)
            line = s[e:nl].rstrip()
            if line.endswith(b"\\"):
                e = nl + 1
                continue
            break
        txt = s[st:nl].decode(errors="replace").replace("\\\n", " ")
        return re.sub(r"\s+", " ", txt).strip()


_tus = {}


def tu(path, prec=None):
    k = (path, prec)
    if k not in _tus:
        _tus[k] = TU(path, prec)
    return _tus[k]


_defidx = None


def def_index():
    """Map from untyped function stem (e.g. bml_add_ellpack) to files that may define it.

    Found textually (names followed by '(' at definition sites); only used to locate the file to parse."""
    global _defidx
    if _defidx is None:
        idx = {}
        for root, _, files in os.walk(os.path.join(REPO, "src")):
            if "distributed2d" in root or "Fortran" in root:
                continue
            for f in files:
                if not f.endswith(".c"):
                    continue
                p = os.path.relpath(os.path.join(root, f), REPO)
                txt = open(os.path.join(REPO, p), errors="replace").read()
                for m in set(re.findall(r"\b([A-Za-z_]\w*)\b", txt)):
                    idx.setdefault(m, []).append(p)
        _defidx = idx
    return _defidx


_found = {}


def find_function(name, near=None, prec=None):
    """Return (TU, FunctionDecl) for a C function by linked name (typed names carry a precision suffix)."""
    if near is not None and name in near.funcs:
        return near, near.funcs[name]
    if name in _found:
        return _found[name]
    stem, p = name, None
    for q in PRECS:
        if name.endswith("_" + q):
            stem, p = name[:-len(q) - 1], q
    idx = def_index()
    cands = []
    for s, pp in ((stem, p), (name, None)):
        for f in idx.get(s, []):
            typed = f.endswith("_typed.c") or f.endswith("bml_gemm.c")
            if typed and pp is None:
                continue
            if not typed and pp is not None:
                continue
            cands.append((f, pp))
        if p is None:
            break
    # prefer files whose name resembles the stem
    def score(fp):
        b = os.path.basename(fp[0]).replace("_typed.c", "").replace(".c", "")
        bs, ss = set(b.split("_")), set(stem.split("_"))
        return -len(bs & ss) * 10 + len(bs - ss)
    for f, pp in sorted(cands, key=score):
        t = open(os.path.join(REPO, f), errors="replace").read()
        # cheap filter: a definition has the name followed by ')' '(' or '(' and later '{'
        if not re.search(r"\b%s\b\)?\s*\(" % re.escape(stem if pp else name), t):
            continue
        try:
            u = tu(f, pp)
        except FrontEndError:
            continue
        if name in u.funcs:
            _found[name] = (u, u.funcs[name])
            return _found[name]
    _found[name] = (None, None)
    return None, None


# ---------------------------------------------------------------- types
class T:
    """Simplified C type."""
    __slots__ = ("k", "to", "name", "n", "bits")

    def __init__(self, k, to=None, name=None, n=None, bits=None):
        self.k, self.to, self.name, self.n, self.bits = k, to, name, n, bits

    def __repr__(self):
        if self.k == "ptr":
            return f"{self.to}*"
        if self.k == "arr":
            return f"{self.to}[{self.n}]"
        return self.name or self.k

    def __eq__(self, o):
        return isinstance(o, T) and (self.k, self.to, self.name, self.n) == (o.k, o.to, o.name, o.n)

    def __hash__(self):
        return hash((self.k, self.name))


INT = T("int", name="int")
VOID = T("void", name="void")
R32, R64 = T("real", name="float", bits=32), T("real", name="double", bits=64)
C32, C64 = T("cx", name="_Complex float", bits=32), T("cx", name="_Complex double", bits=64)
CHAR = T("int", name="char")
LOCK = T("int", name="omp_lock_t")      # a lock is a cell that holds 0 once it is initialised
_INTS = {"int", "unsigned int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "size_t",
         "short", "char", "unsigned char", "signed char", "_Bool", "bool", "unsigned short", "ssize_t", "ptrdiff_t",
         "int64_t", "uint64_t"}


def parse_type(q, tu=None):
    q = q.strip()
    q = re.sub(r"\b(const|volatile|restrict|__restrict|extern|static)\b", "", q).strip()
    q = re.sub(r"\s+", " ", q)
    if "(*" in q:
        return T("fptr", name=q)
    if q.endswith("]"):
        m = re.match(r"^(.*?)\s*\[(.*)\]$", q)
        # innermost for multi-dim not needed
        return T("arr", to=parse_type(m.group(1), tu), n=m.group(2))
    if q.endswith("*"):
        return T("ptr", to=parse_type(q[:-1], tu))
    if q in _INTS:
        return INT if q not in ("char", "unsigned char", "signed char") else CHAR
    if q == "omp_lock_t":
        return LOCK
    if q == "void":
        return VOID
    if q == "float":
        return R32
    if q in ("double", "long double"):
        return R64
    if q in ("_Complex float", "float _Complex", "complex float"):
        return C32
    if q in ("_Complex double", "double _Complex", "complex double"):
        return C64
    if q.startswith("enum "):
        return INT
    if q.startswith("struct "):
        return T("struct", name=q[7:])
    if tu is not None:
        if q in tu.records:
            return T("struct", name=q)
        if q in tu.typedefs and tu.typedefs[q] != q:
            return parse_type(tu.typedefs[q], tu)
    return T("named", name=q)


SIZEOF = {"int": 4, "char": 1, "float": 4, "double": 8, "_Complex float": 8, "_Complex double": 16}


def sizeof(t, qual=None):
    if t.k == "ptr":
        return 8
    if qual:
        qq = re.sub(r"\bconst\b", "", qual).strip()
        if qq in ("size_t", "long", "unsigned long", "long long"):
            return 8
    if t.k in ("int", "real", "cx"):
        return SIZEOF.get(t.name, 4)
    return None
