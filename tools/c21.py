"""C21: conflicting uses of a viewed matrix do not compile.

A state machine generates every program, up to a length, that creates views of a matrix (blocks,
splits, references, lazy expressions, raw windows, element references), views of views, and uses,
moves or overwrites any of them. A model of ownership decides for each one whether two of its uses
conflict. Every program is then given to the compiler together with /repo's crate: the conflicting ones
must be rejected, the others accepted. The same is done for every pair of operand types of sums, scalar
products and matrix products.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(VERIF, "mc", "Cargo.toml")) as _f:
    REPO = re.search(r'^householder *= *\{ *path *= *"([^"]*)"', _f.read(), re.M).group(1)
TARGET = os.path.join(VERIF, "mc", "target", "c21")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
PRELUDE = """#![allow(warnings)]
use householder::*;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::types::{c32, c64};
fn sink<T>(_: T) {}
fn needs_static<T: 'static>(_: T) {}
fn mk<T>() -> T { loop {} }
fn two<T>() -> T { loop {} }
"""
# a rejection has to come from the borrow checker, or from mutability, in programs about uses
BORROW = {"E0381", "E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0521", "E0594", "E0596", "E0597", "E0716", "E0712", "E0713", "lifetime", "E0310", "E0621", "E0700", "E0133"}

CREATES = {
    # name: (expression, result class, how the source is accessed)
    "block": ("{p}.block((0, 0), (1, 1))", "shared", "r"),
    "from_ref": ("Matrix::from_ref(&{p})", "expr", "r"),
    "scaled": ("{two} * &{p}", "expr", "r"),
    "scaled_right": ("&{p} * {two}", "expr", "r"),
    "sum": ("&{p} + &{p}", "expr", "r"),
    "ref": ("Matrix::<{t}, _, {l}, {rs}, {cs}>::new(MatrixRef::new(&{p}))", "expr", "r"),
    "slice": ("{p}.get_slice(0, 1)", "slice", "r"),
    "block_mut": ("{p}.block_mut((0, 0), (1, 1))", "base", "w"),
    "split": ("{p}.split_in_four_mut((1, 1))", "split", "w"),
    "ref_mut": ("Matrix::<{t}, _, {l}, {rs}, {cs}>::new(MatrixRefMut::new(&mut {p}))", "refmut", "w"),
    "slice_mut": ("{p}.get_slice_mut(0, 1)", "slice_mut", "w"),
    "elem": ("{p}.get_mut(0, 0)", "elem", "w"),
    "elem1d": ("{p}.get1d_mut(0)", "elem", "w"),
    "elem_unchecked": ("unsafe {{ {p}.get_unchecked_mut(0, 0) }}", "elem", "w"),
    "elem1d_unchecked": ("unsafe {{ {p}.get1d_unchecked_mut(0) }}", "elem", "w"),
    "into_scaled": ("{two} * {p}", "expr", "m"),
    "into_sum": ("{p} + mk::<{own}>()", "expr", "m"),
}
READS = {"get": "sink({p}.get(0, 0));", "get1d": "sink({p}.get1d(0));", "get_unchecked": "sink(unsafe {{ {p}.get_unchecked(0, 0) }});", "dim": "sink({p}.dim());",
         "eval": "sink({p}.eval());", "pointer": "sink({p}.get_pointer());"}
WRITES = {"set": "*{p}.get_mut(0, 0) = mk();", "set1d": "*{p}.get1d_mut(0) = mk();", "for_each": "{p}.for_each(|v| *v = mk());", "pointer_mut": "sink({p}.get_pointer_mut());",
          "assign": "{p} = mk();"}
CAN = {
    "base": ["from_ref", "scaled", "scaled_right", "sum", "ref", "slice", "ref_mut", "slice_mut", "elem", "elem1d", "elem_unchecked", "elem1d_unchecked", "into_scaled"],
    "shared": ["from_ref", "scaled", "sum", "ref", "slice"],
    "expr": ["from_ref", "scaled", "sum", "ref"],
    "refmut": ["from_ref", "scaled", "sum", "ref", "ref_mut", "elem", "elem1d", "into_scaled"],
    "slice": [], "slice_mut": [], "elem": [],
}
BLOCK = {"RowMajor": "ArbitraryStrideRowMajor", "ColumnMajor": "ArbitraryStrideColumnMajor", "ArbitraryStrideRowMajor": "ArbitraryStrideRowMajor", "ArbitraryStrideColumnMajor": "ArbitraryStrideColumnMajor"}
INDEX = dict(RowMajor="RowMajor", ColumnMajor="ColumnMajor", ArbitraryStrideRowMajor="RowMajor", ArbitraryStrideColumnMajor="ColumnMajor",
             RowVector="RowVector", ColumnVector="ColumnVector", ArbitraryStrideRowVector="RowVector", ArbitraryStrideColumnVector="ColumnVector", UpperTriangular="UpperTriangular")


class Parent:
    def __init__(self, name, ty, lay, rs="Dynamic", cs="Dynamic", t="f64", owned=True):
        self.name, self.ty, self.lay, self.rs, self.cs, self.t, self.owned = name, ty, lay, rs, cs, t, owned


def parents(t="f64"):
    S = "SliceMatrixMut<'_, %s, %s, Dynamic, Dynamic>"
    return [
        Parent("row-major", "MatrixD<%s, RowMajor>" % t, "RowMajor", t=t),
        Parent("column-major", "MatrixD<%s, ColumnMajor>" % t, "ColumnMajor", t=t),
        Parent("strided by rows", S % (t, "ArbitraryStrideRowMajor"), "ArbitraryStrideRowMajor", t=t, owned=False),
        Parent("strided by columns", S % (t, "ArbitraryStrideColumnMajor"), "ArbitraryStrideColumnMajor", t=t, owned=False),
        Parent("borrowed row-major", S % (t, "RowMajor"), "RowMajor", t=t, owned=False),
        Parent("triangular", "UpperTriangularMatrix<%s>" % t, "UpperTriangular", t=t),
        Parent("column vector", "ColumnVectorD<%s>" % t, "ColumnVector", "Dynamic", "Fixed1", t=t),
        Parent("row vector", "RowVectorD<%s>" % t, "RowVector", "Fixed1", "Dynamic", t=t),
        Parent("fixed", "Matrix32<%s, ColumnMajor>" % t, "ColumnMajor", "Fixed3", "Fixed2", t=t),
    ]


class Var:
    __slots__ = ("cls", "lay", "loans", "owned", "ref")

    def __init__(self, cls, lay, loans, owned=False, ref=None):
        self.cls, self.lay, self.loans, self.owned, self.ref = cls, lay, loans, owned, ref


class Prog:
    """Statements, the variables they declare, and the accesses they make."""

    def __init__(self, parent, mode):
        self.parent, self.mode = parent, mode
        self.vars = [Var("base", parent.lay, (), owned=parent.owned and mode == "own", ref=None if mode == "own" else mode)]
        self.text, self.events = [], []

    def copy(self):
        p = Prog.__new__(Prog)
        p.parent, p.mode, p.vars, p.text, p.events = self.parent, self.mode, list(self.vars), list(self.text), list(self.events)
        return p

    def place(self, x):
        return "(*x0)" if x == 0 and self.mode != "own" else "x%d" % x

    def fmt(self, x, s):
        q = self.parent
        return s.format(p=self.place(x), t=q.t, l=self.vars[x].lay, rs=q.rs, cs=q.cs, two="two::<%s>()" % q.t, own=q.ty)

    def moved(self, x):
        return any(("m", x) in e for e in self.events)

    def creates(self, x):
        v = self.vars[x]
        out = list(CAN[v.cls])
        q = self.parent
        if v.cls in ("base", "shared") and v.lay in BLOCK and (q.rs, q.cs) == ("Dynamic", "Dynamic"):
            out.append("block")
            if v.cls == "base":
                out.append("block_mut")
                if v.lay == "RowMajor":
                    out.append("split")
        if x == 0 and self.mode != "own":
            out = [c for c in out if CREATES[c][2] != "m"]
        return out

    def create(self, x, op):
        p = self.copy()
        e, cls, acc = CREATES[op]
        v = self.vars[x]
        lay = v.lay
        if op in ("block", "block_mut", "split"):
            lay = BLOCK[lay]
        if op == "sum":
            lay = INDEX[lay]
        n = len(p.vars)
        loans = v.loans + (((x, acc, n),) if acc != "m" else ())
        names = ["x%d" % n]
        if cls == "split":
            names.append("x%d" % (n + 1))
            p.vars += [Var("base", lay, loans), Var("base", lay, loans)]
            p.text.append("let (mut x%d, _, _, mut x%d) = %s;" % (n, n + 1, p.fmt(x, e)))
        else:
            p.vars.append(Var(cls, lay, loans, owned=acc == "m" and v.owned))
            p.text.append("let mut x%d = %s;" % (n, p.fmt(x, e)))
        p.events.append(((acc, x),))
        return p

    def reads(self, x, full):
        c = self.vars[x].cls
        if c in ("slice", "slice_mut", "elem"):
            return ["read"]
        out = ["get"]
        if full:
            out += ["get1d", "get_unchecked", "dim"]
            if (self.parent.rs, self.parent.cs) == ("Dynamic", "Dynamic"):
                out.append("eval")
            if c in ("base", "shared"):
                out.append("pointer")
        return out

    def writes(self, x, full):
        c = self.vars[x].cls
        if c in ("slice_mut", "elem"):
            return ["write"]
        if c == "base":
            return ["set"] + (["set1d", "for_each", "pointer_mut"] + (["assign"] if x == 0 and not self.moved(0) else []) if full else [])
        if c == "refmut":
            return ["set"] + (["set1d"] if full else [])
        return []

    def use(self, x, op):
        p = self.copy()
        c = self.vars[x].cls
        if op == "read":
            s = "sink(x%d[0]);" % x if c != "elem" else "sink(*x%d);" % x
        elif op == "write":
            s = "x%d[0] = mk();" % x if c != "elem" else "*x%d = mk();" % x
        elif op == "move":
            s = "sink(x%d);" % x
        else:
            s = p.fmt(x, READS.get(op) or WRITES.get(op))
        acc = "m" if op == "move" else "w" if op == "write" or op in WRITES else "r"
        p.text.append(s)
        p.events.append(((acc, x),))
        return p

    def movable(self, x):
        # moving a shared view and using it again is no conflict
        return self.vars[x].cls in ("base", "refmut", "slice_mut", "elem") and self.vars[x].ref != "ref"

    def product(self, a, b, c):
        p = self.copy()
        p.text.append("{t}::matmul(two(), &{a}, &{b}, two(), &mut {c});".format(t=self.parent.t, a=self.place(a), b=self.place(b), c=self.place(c)))
        p.events.append((("r", a), ("r", b), ("w", c)))
        return p

    def plus(self, a, b):
        p = self.copy()
        p.text.append("sink(&%s + &%s);" % (self.place(a), self.place(b)))
        p.events.append((("r", a), ("r", b)))
        return p

    def source(self, name):
        q = self.parent
        ty = {"own": "mut x0: %s", "mut": "x0: &mut %s", "ref": "x0: &%s"}[self.mode] % q.ty
        return "fn %s(%s) { %s }" % (name, ty, " ".join(self.text))

    def verdict(self):
        """True: conflict, False: none, None: neither required nor forbidden."""
        soft = False
        gone = set()
        n = len(self.events)
        used = [set(x for _, x in e) for e in self.events]
        after = [set() for _ in range(n + 1)]
        for t in range(n - 1, -1, -1):
            after[t] = after[t + 1] | used[t]
        # number of variables declared before each event
        declared, k = [], 1
        for s in self.text:
            declared.append(k)
            if s.startswith("let ("):
                k += 2
            elif s.startswith("let "):
                k += 1
        for t, e in enumerate(self.events):
            if sum(1 for a in e if a[0] == "w" and any(b[1] == a[1] for b in e if b is not a)):
                return True
            for acc, x in e:
                v = self.vars[x]
                if x in gone:
                    if v.cls in ("shared", "expr", "slice"):
                        soft = True
                    else:
                        return True
                if acc == "w" and x == 0 and self.mode == "ref":
                    return True
                for y in range(declared[t]):
                    if y == x:
                        continue
                    live = y in after[t + 1] or (y in used[t] and len(e) > 1)
                    if y not in after[t] or not live:
                        continue
                    for (z, kind, _) in self.vars[y].loans:
                        if z != x:
                            continue
                        if acc == "w" or (acc == "r" and kind == "w"):
                            return True
                        if acc == "m":
                            if v.owned:
                                return True
                            soft = True
            for acc, x in e:
                if acc == "m":
                    gone.add(x)
        return None if soft else False

    def state(self, upto=None):
        return hash((self.parent.name, self.mode, tuple((v.cls, v.lay, v.loans) for v in self.vars), tuple(x for e in self.events for a, x in e if a == "m")))


class Space:
    def __init__(self):
        self.progs = []       # (space, source text with {name}, expect, kind)
        self.counts = {}
        self.states, self.transitions = set(), 0

    def add(self, space, p):
        v = p.verdict()
        c = self.counts.setdefault(space, {"conflicting": 0, "free of conflicts": 0, "undetermined": 0})
        if v is None:
            c["undetermined"] += 1
            return
        c["conflicting" if v else "free of conflicts"] += 1
        self.transitions += len(p.events)
        self.progs.append((space, p.source("NAME"), v, "uses"))

    def raw(self, space, src, reject, kind):
        c = self.counts.setdefault(space, {"conflicting": 0, "free of conflicts": 0, "undetermined": 0})
        c["conflicting" if reject else "free of conflicts"] += 1
        self.transitions += 1
        self.states.add(hash(src))
        self.progs.append((space, src, reject, kind))

    def walk(self, space, p, depth, allow, full):
        """Every continuation of p by `depth` statements, the last one being a use."""
        self.states.add(p.state())
        if depth == 0:
            self.add(space, p)
            return
        first = not p.text
        for x in range(len(p.vars)):
            if not first:
                for op in p.reads(x, full and depth > 1) + p.writes(x, full and depth > 1):
                    self.walk(space, p.use(x, op), depth - 1, allow, full)
                if p.movable(x) and (x > 0 or p.mode == "own"):
                    self.walk(space, p.use(x, "move"), depth - 1, allow, full)
            if depth > 1:
                for op in p.creates(x):
                    if op in allow:
                        self.walk(space, p.create(x, op), depth - 1, allow, full)


ALL = set(CREATES) - {"into_sum"}
CORE = {"block", "scaled", "block_mut", "split", "ref_mut", "elem"}


def build_space(tier):
    sp = Space()
    quick = tier == "quick"
    P = parents()
    for q in P:
        for mode in ("own", "mut", "ref"):
            sp.walk("uses of views: %s, %s" % (q.name, mode), Prog(q, mode), 3, ALL, True)
    for t in ("f32", "c32", "c64"):
        for q in parents(t)[:2 if quick else None]:
            sp.walk("uses of views: %s %s" % (t, q.name), Prog(q, "own"), 3, ALL if not quick else CORE | {"slice_mut", "slice"}, not quick)
    for q in P[:3] if quick else P:
        sp.walk("longer programs: " + q.name, Prog(q, "own"), 4, CORE if quick else CORE | {"slice_mut", "sum", "ref"}, False)
    if not quick:
        for q in P[:1] + P[2:3]:
            sp.walk("longest programs: " + q.name, Prog(q, "own"), 5, {"block", "block_mut", "scaled"}, False)
    for q in P[:4]:
        objects(sp, q)
    outlive(sp, P)
    readonly(sp, P)
    unchecked(sp, P)
    types(sp, quick)
    return sp


def objects(sp, q):
    """Products and sums whose operands are the matrix, its views and views of the views."""
    base = [c for c in ("block", "block_mut", "split", "slice_mut", "elem", "scaled")]
    start = [Prog(q, "own")]
    two = []
    for p in start:
        for a in base:
            if a in p.creates(0):
                two.append(p.create(0, a))
    three = []
    for p in two:
        for x in range(len(p.vars)):
            for a in base:
                if a in p.creates(x):
                    three.append(p.create(x, a))
    for p in two + three:
        mats = [x for x, v in enumerate(p.vars) if v.cls in ("base", "shared")]
        anym = [x for x, v in enumerate(p.vars) if v.cls in ("base", "shared", "expr")]
        ends = []
        for c in mats:
            if p.vars[c].cls != "base":
                continue
            for a in mats:
                for b in mats:
                    ends.append(p.product(a, b, c))
        for a in anym:
            for b in anym:
                if INDEX[p.vars[a].lay] == INDEX[p.vars[b].lay]:
                    ends.append(p.plus(a, b))
        for e in ends:
            sp.states.add(e.state())
            sp.add("products and sums of views: " + q.name, e)
            for x in range(len(p.vars)):
                sp.add("products and sums of views: " + q.name, e.use(x, e.reads(x, False)[0]))


def outlive(sp, P):
    for q in P:
        if not q.owned:
            continue
        p = Prog(q, "own")
        chains = []
        for a in p.creates(0):
            if a in ALL and CREATES[a][2] != "m":
                c = p.create(0, a)
                chains.append(c)
                for b in c.creates(1):
                    if b in ALL and CREATES[b][2] != "m":
                        chains.append(c.create(1, b))
        for c in chains:
            last = len(c.vars) - 1
            use = c.use(last, c.reads(last, False)[0]).text[-1]
            body = list(c.text)
            decl = "mut x%d;" % last
            if body[-1].startswith("let ("):
                decl = "(mut x%d, _, _, mut x%d);" % (last - 1, last)
                tail = "let (a, _, _, b) = " + body[-1].split(" = ", 1)[1]
                outer = "let mut x%d; let mut x%d;" % (last - 1, last)
                tail += " x%d = a; x%d = b;" % (last - 1, last)
            else:
                tail = body[-1].replace("let mut ", "", 1)
                outer = "let mut x%d;" % last
            inner = " ".join(["let mut x0: %s = mk();" % q.ty] + body[:-1] + [tail])
            sp.raw("views that outlive their matrix", "fn NAME() { %s { %s } %s }" % (outer, inner, use), True, "uses")
            sp.raw("views that outlive their matrix", "fn NAME() { %s { %s %s } }" % (outer, inner, use), False, "uses")
            sp.raw("views that outlive their matrix", "fn NAME(mut x0: %s) { %s needs_static(x%d); }" % (q.ty, " ".join(body), last), True, "uses")
            sp.raw("views that outlive their matrix", "fn NAME(mut x0: %s) { %s sink(x%d); }" % (q.ty, " ".join(body), last), False, "uses")
    # containers over foreign storage
    for cont, ref in (("SliceContainer", "&"), ("SliceContainerMut", "&mut ")):
        for lay, new in (("RowMajor", "RowMajor::new((2, 2))"), ("ColumnMajor", "ColumnMajor::new((2, 2))"), ("ArbitraryStrideRowMajor", "ArbitraryStrideRowMajor::new((2, 2), (2, 1))")):
            mat = "GenericBaseMatrix::<f64, %s, _, Dynamic, Dynamic>::from_data(%s::new(%sb), %s)" % (lay, cont, ref, new)
            space = "matrices over borrowed storage"
            sp.raw(space, "fn NAME() { let mut x; { let mut b = [0.0; 4]; x = %s; } sink(x.get(0, 0)); }" % mat, True, "uses")
            sp.raw(space, "fn NAME() { let mut x; { let mut b = [0.0; 4]; x = %s; sink(x.get(0, 0)); } }" % mat, False, "uses")
            sp.raw(space, "fn NAME() { let mut b = [0.0; 4]; let mut x = %s; b[0] = 1.0; sink(x.get(0, 0)); }" % mat, True, "uses")
            sp.raw(space, "fn NAME() { let mut b = [0.0; 4]; let mut x = %s; sink(b[0]); sink(x.get(0, 0)); }" % mat, ref != "&", "uses")
            sp.raw(space, "fn NAME() { let mut b = [0.0; 4]; let mut x = %s; sink(x.get(0, 0)); b[0] = 1.0; }" % mat, False, "uses")
            sp.raw(space, "fn NAME() { let mut b = [0.0; 4]; let mut x = %s; let mut y = %s; sink(x.get(0, 0)); sink(y.get(0, 0)); }" % (mat, mat), ref != "&", "uses")
            sp.raw(space, "fn NAME() { let b = [0.0; 4]; let mut x = %s; sink(x.get(0, 0)); }" % mat, ref != "&", "uses")
            sp.raw(space, "fn NAME() { let mut b = [0.0; 4]; needs_static(%s); }" % mat, True, "uses")


def readonly(sp, P):
    """Nothing can be written through a view that only reads."""
    for q in P:
        for mode in ("own", "ref"):
            p = Prog(q, mode)
            for a in p.creates(0):
                if CREATES[a][2] != "r":
                    continue
                c = p.create(0, a)
                last = len(c.vars) - 1
                for w in list(WRITES.values())[:4] + ["sink({p}.block_mut((0, 0), (1, 1)));", "sink({p}.get_slice_mut(0, 1));", "sink({p}.split_in_four_mut((0, 0)));", "sink(unsafe {{ {p}.get_unchecked_mut(0, 0) }});",
                                                      "{p}[0] = mk();", "f64::matmul(two(), &mk::<MatrixD<f64, RowMajor>>(), &mk::<MatrixD<f64, RowMajor>>(), two(), &mut {p});"]:
                    if "[0]" in w and c.vars[last].cls != "slice":
                        continue
                    d = c.copy()
                    d.text.append(d.fmt(last, w))
                    sp.raw("writes through read-only views", d.source("NAME"), True, "types")


UNCHECKED_READS = ["sink({p}.get_unchecked(0, 0));", "sink({p}.get1d_unchecked(0));"]
UNCHECKED_WRITES = ["*{p}.get_unchecked_mut(0, 0) = mk();", "*{p}.get1d_unchecked_mut(0) = mk();"]


def unchecked(sp, P):
    """Unchecked access is open to unsafe code only."""
    space = "operations without bounds checks in safe code"
    for q in P:
        for mode in ("own", "mut"):
            p = Prog(q, mode)
            chains = [p]
            for a in p.creates(0):
                if a in ALL and CREATES[a][1] in ("base", "shared", "expr", "refmut", "split"):
                    c = p.create(0, a)
                    chains.append(c)
                    for b in c.creates(1):
                        if b in ALL and CREATES[b][1] in ("base", "shared", "expr", "refmut", "split"):
                            chains.append(c.create(1, b))
            for c in chains:
                last = len(c.vars) - 1
                for u in UNCHECKED_READS + (UNCHECKED_WRITES if c.vars[last].cls in ("base", "refmut") else []):
                    for safe in (True, False):
                        d = c.copy()
                        d.text.append(d.fmt(last, u if safe else "unsafe {{ " + u + " }}"))
                        sp.raw(space, d.source("NAME"), safe, "unsafe")
    for ty, ctor, mutable in (("RowMajor", "from_pointer(p, (1, 1))", 1), ("ColumnMajor", "from_pointer(p, (1, 1))", 1),
                              ("ArbitraryStrideRowMajor", "from_pointer(p, (1, 1), (1, 1))", 1), ("ArbitraryStrideColumnMajor", "from_pointer(p, (1, 1), (1, 1))", 1)):
        for kind, ptr in (("SliceMatrix", "*const f64"), ("SliceMatrixMut", "*mut f64")):
            e = "sink(%s::<'_, f64, %s, Dynamic, Dynamic>::%s);" % (kind, ty, ctor)
            sp.raw(space, "fn NAME(p: %s) { %s }" % (ptr, e), True, "unsafe")
            sp.raw(space, "fn NAME(p: %s) { unsafe { %s } }" % (ptr, e), False, "unsafe")
    for cont in ("VectorContainer::<f64>::new(2)", "ArrayContainer::<f64, 4>::new()"):
        for u in ("sink(c.get_unchecked(0));", "*c.get_unchecked_mut(0) = 1.0;"):
            sp.raw(space, "fn NAME() { let mut c = %s; %s }" % (cont, u), True, "unsafe")
            sp.raw(space, "fn NAME() { let mut c = %s; unsafe { %s } }" % (cont, u), False, "unsafe")
    sp.raw(space, "fn NAME(p: *mut f64) { sink(SliceContainerMut::<'_, f64>::from_raw(p, 1)); }", True, "unsafe")
    sp.raw(space, "fn NAME(p: *mut f64) { sink(unsafe { SliceContainerMut::<'_, f64>::from_raw(p, 1) }); }", False, "unsafe")


def types(sp, quick):
    """Every pair of operand types: sums need the same scalar type, numbering order and size kinds."""
    kinds = []
    for t in ("f64", "f32", "c64", "c32"):
        for lay in ("RowMajor", "ColumnMajor", "ArbitraryStrideRowMajor", "ArbitraryStrideColumnMajor", "UpperTriangular"):
            kinds.append(("SliceMatrixMut<'a, %s, %s, Dynamic, Dynamic>" % (t, lay), t, lay, "Dynamic", "Dynamic"))
        for lay, rs, cs in (("RowVector", "Fixed1", "Dynamic"), ("ArbitraryStrideRowVector", "Fixed1", "Dynamic"), ("ColumnVector", "Dynamic", "Fixed1"), ("ArbitraryStrideColumnVector", "Dynamic", "Fixed1")):
            kinds.append(("SliceMatrixMut<'a, %s, %s, %s, %s>" % (t, lay, rs, cs), t, lay, rs, cs))
        for n, rs, cs in (("Matrix22", "Fixed2", "Fixed2"), ("Matrix33", "Fixed3", "Fixed3"), ("Matrix32", "Fixed3", "Fixed2"), ("Matrix23", "Fixed2", "Fixed3")):
            for lay in ("RowMajor", "ColumnMajor"):
                kinds.append(("%s<%s, %s>" % (n, t, lay), t, lay, rs, cs))
        kinds.append(("MatrixD<%s, RowMajor>" % t, t, "RowMajor", "Dynamic", "Dynamic"))
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            ok = a[1] == b[1] and INDEX[a[2]] == INDEX[b[2]] and a[3:] == b[3:]
            forms = ["a + b", "&a + &b", "a + &b", "&a + b"]
            for f in ([forms[(i + j) % 4]] if quick and not ok else forms):
                sp.raw("pairs of operand types of sums", "fn NAME<'a>(a: %s, b: %s) { sink(%s); }" % (a[0], b[0], f), not ok, "types")
    for a in kinds:
        for t in ("f64", "f32", "c64", "c32"):
            for f in ("s * a", "s * &a", "a * s", "&a * s"):
                sp.raw("scalar types of products with a scalar", "fn NAME<'a>(a: %s, s: %s) { sink(%s); }" % (a[0], t, f), a[1] != t, "types")
    mats = [k for k in kinds if k[0].startswith("SliceMatrixMut")]
    shapes = {(("Dynamic", "Dynamic"),) * 3, (("Dynamic", "Dynamic"), ("Dynamic", "Fixed1"), ("Dynamic", "Fixed1")), (("Fixed1", "Dynamic"), ("Dynamic", "Dynamic"), ("Fixed1", "Dynamic"))}
    f64s = [k for k in mats if k[1] == "f64"]
    for a in f64s:
        for b in f64s:
            for c in f64s:
                tri = "UpperTriangular" in (a[2], b[2], c[2])
                ok = (a[3:], b[3:], c[3:]) in shapes and not tri
                sp.raw("operand types of matrix products", "fn NAME<'a>(a: %s, b: %s, mut c: %s) { f64::matmul(two(), &a, &b, two(), &mut c); }" % (a[0], b[0], c[0]), not ok, "types")
    for a in mats:
        for b in mats:
            if a[1] == b[1] and not quick:
                continue
            if a[1] != b[1] and a[2] == b[2] == "RowMajor":
                for v in ("&a, &b, two(), &mut c", "&b, &a, two(), &mut c"):
                    for o in (a, b):
                        sp.raw("operand types of matrix products", "fn NAME<'a>(a: %s, b: %s, mut c: %s) { %s::matmul(two(), %s); }" % (a[0], b[0], o[0], a[1], v), True, "types")


# --- giving the programs to the compiler ---------------------------------------------------------

def library(tmp):
    """Checks /repo's crate and returns the compiler arguments for using it."""
    os.makedirs(os.path.join(tmp, "lib", "src"))
    with open(os.path.join(tmp, "lib", "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "client"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nhouseholder = { path = "%s" }\n' % REPO)
    shutil.copy(os.path.join(VERIF, "mc", "Cargo.lock"), os.path.join(tmp, "lib", "Cargo.lock"))
    with open(os.path.join(tmp, "lib", "src", "lib.rs"), "w") as f:
        f.write("")
    r = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json", "--manifest-path", os.path.join(tmp, "lib", "Cargo.toml")],
                       env=ENV, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return None, r.stdout[-3000:] + r.stderr[-3000:]
    meta = None
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "householder":
                meta = [x for x in m["filenames"] if x.endswith(".rmeta")][0]
    if meta is None:
        return None, "no metadata of householder"
    return ["--extern", "householder=" + meta, "-L", "dependency=" + os.path.dirname(meta)], ""


def compile_(tmp, name, libargs, progs):
    """-> for every program the set of error codes, or a message if the compiler gave no verdict."""
    src = os.path.join(tmp, name + ".rs")
    pre = PRELUDE.count("\n")
    with open(src, "w") as f:
        f.write(PRELUDE)
        for n, p in enumerate(progs):
            f.write(p.replace("NAME", "p%d" % n, 1) + "\n")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", name, "--emit=metadata", "-o", os.path.join(tmp, name + ".rmeta"), "--error-format=json",
                        "--cap-lints", "allow", src] + libargs, env=ENV, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.unlink(src)
    codes = [dict() for _ in progs]
    for l in r.stderr.splitlines():
        if not l.startswith("{"):
            if "panicked" in l or "internal compiler error" in l:
                return None, l
            continue
        m = json.loads(l)
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        if m["level"] != "error":
            return None, m["message"]
        lines = {s["line_start"] for s in m["spans"] if s["is_primary"] and s["file_name"] == src}
        if not lines:
            if m["message"].startswith("aborting due to") or not m["spans"]:
                continue
            # an error placed inside the library: attribute it through the notes
            lines = {s["line_start"] for c in m["children"] for s in c["spans"] if s["file_name"] == src}
            if not lines:
                return None, m["message"]
        code = (m["code"] or {}).get("code") or ("lifetime" if "lifetime" in m["message"] or "borrowed data escapes" in m["message"] else "other")
        for n in lines:
            if n - 1 - pre < 0:
                return None, m["message"]
            codes[n - 1 - pre].setdefault(code, m["message"])
    if r.returncode != 0 and not any(codes):
        return None, r.stderr[-500:]
    return codes, ""


def decide(tmp, name, libargs, progs):
    """As `compile_`; type errors may hide borrow errors elsewhere, so programs with type errors are set aside."""
    out = [None] * len(progs)
    todo = list(range(len(progs)))
    for round_ in range(4):
        codes, err = compile_(tmp, "%s_%d" % (name, round_), libargs, [progs[i][1] for i in todo])
        if codes is None:
            return None, err
        typed = [i for i, c in zip(todo, codes) if any(k not in BORROW for k in c)]
        if not typed or progs[0][3] == "types":
            for i, c in zip(todo, codes):
                out[i] = c
            return out, ""
        for i, c in zip(todo, codes):
            if i in set(typed):
                out[i] = c
        s = set(typed)
        todo = [i for i in todo if i not in s]
        if not todo:
            return out, ""
    return None, "type errors keep appearing"


def judge(prog, codes):
    """A description of what is wrong, or None."""
    space, src, reject, kind = prog
    if not reject:
        return None if not codes else "a program without conflicting uses is rejected: " + "; ".join("%s %s" % x for x in sorted(codes.items()))
    if not codes:
        return {"uses": "a program with conflicting uses is accepted", "unsafe": "an operation without bounds checks is accepted in safe code", "types": "a program with unsuitable operands is accepted"}[kind]
    if kind == "unsafe" and "E0133" not in codes:
        return "a program is rejected for another reason than its unchecked access: " + "; ".join("%s %s" % x for x in sorted(codes.items()))
    if kind == "uses" and not any(k in BORROW for k in codes):
        return "a program is rejected for another reason than its conflicting uses: " + "; ".join("%s %s" % x for x in sorted(codes.items()))
    return None


def check(tier, spec):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mc-C21-")
    viols, undecided, ndone = [], [], 0
    try:
        libargs, err = library(tmp)
        if libargs is None:
            print(err)
            print("ERROR: C21: the library does not build")
            return 2
        built = time.time() - t0
        sp = build_space(tier)
        jobs = []
        for kind in ("uses", "unsafe", "types"):
            ps = [p for p in sp.progs if p[3] == kind]
            size = min(1500, max(50, len(ps) // 24))
            jobs += [ps[i:i + size] for i in range(0, len(ps), size)]
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for (n, ps), (codes, err) in zip(enumerate(jobs), ex.map(lambda j: decide(tmp, "u%d" % j[0], libargs, j[1]), enumerate(jobs))):
                if codes is None:
                    undecided.append(err)
                    continue
                ndone += len(ps)
                viols += [(p, w) for p, c in zip(ps, codes) for w in [judge(p, c)] if w]
        d = os.path.join(VERIF, "replays")
        for p, w in viols[:3]:
            os.makedirs(d, exist_ok=True)
            v = {"property": "C21", "tier": tier, "space": p[0], "program": p[1], "must_be_rejected": p[2], "kind": p[3], "message": w}
            path = os.path.join(d, "C21-%s.json" % hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10])
            v["replay_with"] = "python3 check.py --replay %s" % os.path.relpath(path, VERIF)
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s" % p[0])
            print("  %s" % p[1])
            print("  %s" % w)
            print("VIOLATION property=C21 replay=%s" % os.path.relpath(path, VERIF))
        bounds = spec["bounds"][0] if tier == "quick" else spec["bounds"][1]
        cov = {"spaces": sp.counts, "exhaustive": not viols and not undecided, "bounds": bounds, "states": len(sp.states), "transitions": sp.transitions,
               "traces_validated_against_impl": ndone, "programs_rejected_as_required": sum(1 for p in sp.progs if p[2]), "programs_accepted_as_required": sum(1 for p in sp.progs if not p[2]),
               "binding": "every program the model generates is compiled against the crate in /repo and the compiler's verdict compared with the model's",
               "samples": [{"space": s, "case": next(p[1] for p in sp.progs if p[0] == s)} for s in sorted({p[0] for p in sp.progs})][:60], "build_s": round(built, 1)}
        if undecided:
            cov["undecided"] = undecided
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "C21.json"), "w") as f:
            json.dump({"property": "C21", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"], "coverage": cov,
                       "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": len(viols)}, f, indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if viols:
        print("C21: %d violating programs (%.0f s)" % (len(viols), time.time() - t0))
        return 1
    if undecided:
        print("ERROR: C21: no verdict: " + "; ".join(undecided[:3]))
        return 2
    print("C21 %s: held on everything explored, %d programs (%.0f s)" % (tier, ndone, time.time() - t0))
    return 0


def replay(v):
    tmp = tempfile.mkdtemp(prefix="mc-C21-")
    try:
        libargs, err = library(tmp)
        if libargs is None:
            print(err)
            return 2
        prog = (v["space"], v["program"], v["must_be_rejected"], v["kind"])
        codes, err = decide(tmp, "r", libargs, [prog])
        if codes is None:
            print(err)
            return 2
        print(v["program"])
        w = judge(prog, codes[0])
        print(w or "the compiler's verdict is as required: %s" % (codes[0] or "accepted"))
        return 1 if w else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
