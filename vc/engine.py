"""Verification-condition generator: symbolic execution of LLVM IR with loop invariants and contracts.

Every path of a harness (a contract: assume precondition / call the real function / assert postcondition) is
executed over unconstrained bit-vector inputs; each assertion, memory access, signed overflow, division and
unexpected termination on a path is one proof obligation (path condition => claim) that Z3 has to refute.
Loops whose trip count depends on symbolic data are cut at their header: an inductive invariant is inferred
(Houdini over a template built from the loop variables and the ghost terms the harness names) and the loop is
replaced by that invariant, so nothing is bounded.  Loops with a concrete trip count are executed in full.
"""
import itertools
import time
import re
import sys
import z3
import llvmc
from llvmc import Unsupported, Local, Const

sys.setrecursionlimit(20000)
BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)


class Undecided(Exception):
    """The verifier cannot decide (unmodelled construct, limit, solver unknown)."""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Ptr:
    """pointer (or pointer-valued i64) with provenance: object id + byte offset; obj None = absolute address."""
    __slots__ = ("obj", "off")
    def __init__(self, obj, off):
        self.obj, self.off = obj, off
    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)


NULL = Ptr(None, 0)
is_expr = z3.is_expr


def mask(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class MemData:
    __slots__ = ("cells", "arr", "size", "alive", "gran", "name", "kind", "ro", "owner", "region", "tag")
    def copy(self, owner):
        m = MemData()
        m.cells, m.arr, m.size, m.alive = dict(self.cells), self.arr, self.size, self.alive
        m.gran, m.name, m.kind, m.ro, m.owner, m.region, m.tag = (self.gran, self.name, self.kind, self.ro, owner,
                                                                  self.region, self.tag)
        return m


class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "vals", "dest", "normal", "on_ret", "allocas", "iters", "ty", "tag")
    def copy(self):
        f = Frame()
        f.fn, f.blk, f.prev, f.ip, f.vals = self.fn, self.blk, self.prev, self.ip, dict(self.vals)
        f.dest, f.normal, f.on_ret, f.allocas = self.dest, self.normal, self.on_ret, list(self.allocas)
        f.iters, f.ty, f.tag = dict(self.iters), self.ty, self.tag
        return f


class LoopCtx:
    __slots__ = ("depth", "header", "body", "back", "exits", "writes", "ended", "oidmark")


class State:
    _n = itertools.count()
    __slots__ = ("frames", "mem", "pc", "model", "bases", "havocs", "hints", "termok", "ctxs", "trace", "tok", "lemma",
                 "regions", "covers", "replog", "counter", "exc", "locks", "wlog")
    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.model = self.model
        s.bases = dict(self.bases)
        s.havocs = list(self.havocs)
        s.hints = list(self.hints)
        s.termok = self.termok
        s.ctxs = list(self.ctxs)
        s.trace = list(self.trace)
        s.regions = list(self.regions)
        s.covers = list(self.covers)
        s.replog = list(self.replog)
        s.counter = dict(self.counter)
        s.exc = self.exc
        s.locks = self.locks
        s.wlog = self.wlog
        s.tok = next(State._n)
        self.tok = next(State._n)  # both sides must copy on write from now on
        return s


def has_product(cs):
    seen = set()
    todo = list(cs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_BMUL and sum(0 if z3.is_bv_value(a) else 1 for a in x.children()) > 1:
                return True
            todo.extend(x.children())
    return False


class Solver:
    """incremental solver for branch feasibility with a small budget; anything harder goes to one-shot QF_AUFBV, then to the
    default solver, then to cvc5 on the printed query"""
    def __init__(self, log=None):
        self.s = z3.Solver()
        self.s.set("timeout", 120)
        self.stack = []
        self.n = 0
        self.time = 0.0
        self.unknown = 0
        self.hard_timeout = 60000
        self.fallbacks = 0
        self.backends = {}

    def check(self, pc, extra=(), hard=False):
        """-> ('unsat', None) | ('sat', model) | ('unknown', None)"""
        t0 = time.time()
        self.n += 1
        r = z3.unknown
        mod = None
        who = "z3 incremental"
        if not hard:
            st = self.stack
            i = 0
            m = min(len(st), len(pc))
            while i < m and st[i] is pc[i]:
                i += 1
            if len(st) > i:
                self.s.pop(len(st) - i)
                del st[i:]
            for c in pc[i:]:
                self.s.push()
                self.s.add(c)
                st.append(c)
            if extra:
                self.s.push()
                for e in extra:
                    self.s.add(e)
            r = self.s.check()
            if r == z3.sat:
                mod = self.s.model()
            if extra:
                self.s.pop()
        if r == z3.unknown:
            self.fallbacks += 1
            r, mod, who = self._hard(list(pc) + list(extra))
        self.time += time.time() - t0
        self.backends[who] = self.backends.get(who, 0) + 1
        if r == z3.sat:
            return "sat", mod
        if r == z3.unsat:
            return "unsat", None
        self.unknown += 1
        return "unknown", None

    def _hard(self, cs):
        def strategies():
            yield "z3 qf_aufbv", lambda: z3.SolverFor("QF_AUFBV"), 3000
            if has_product(cs):
                # products of variables: distribute them over sums first
                yield "z3 som", lambda: z3.Then(z3.With("simplify", som=True), "smt").solver(), 8000
            yield "z3 qf_aufbv", lambda: z3.SolverFor("QF_AUFBV"), 20000
            yield "z3", z3.Solver, self.hard_timeout
        for who, mk, to in strategies():
            s = mk()
            s.set("timeout", to)
            try:
                s.add(cs)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat else None), who
        # cvc5 for a final unsat verdict
        import subprocess
        try:
            s = z3.Solver()
            s.add(cs)
            q = "(set-logic ALL)\n" + s.to_smt2()
            p = subprocess.run(["cvc5", "--tlimit=60000", "-"], input=q, capture_output=True, text=True, timeout=90)
            if p.stdout.strip().startswith("unsat"):
                return z3.unsat, None, "cvc5"
        except Exception:
            pass
        return z3.unknown, None, "none"


class Result:
    def __init__(self):
        self.obligations = {}   # label -> [checked, failed, trivially-discharged]
        self.failures = []      # dicts
        self.undecided = []
        self.covers = {}
        self.paths = 0
        self.loops = {}
        self.funcs = set()
        self.assumed = set()
        self.externals = set()
        self.contracts = set()
        self.maxcand = 0


OVF_TEST = True


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = dict(unroll=None, max_unroll=4096, max_paths=200000, bounded=None, ub=True, timeout=None, first=False,
                      verbose=0)
        self.o.update(opts or {})
        self.sol = Solver()
        self.res = Result()
        self.muted = 0
        self.dry = 0
        self.warm = {}
        self.warmframe = {}
        self.oid = itertools.count(1)
        self.globobj = {}
        self.funcobj = {}
        self.objname = {}
        self.fresh_n = itertools.count()
        self.demcache = {}
        self.dem = self._demangle()
        self.repl = {}
        self._contracts()
        self.ext = {}
        import models
        models.install(self)
        self.deadline = None
        self.cuts = {}
        self.smalltrips = {}

    # ---------------------------------------------------------------- names
    def _demangle(self):
        import subprocess
        names = list(self.m.funcs)
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True,
                             text=True).stdout.split("\n")
        return dict(zip(names, out))

    def _contracts(self):
        """Global arrays named __vc_contract_* : {const char* pattern, void* stub, i32 flags}: a call to a function whose demangled
        name matches is replaced by the stub (its contract); patterns that match nothing are ignored."""
        self.contract_decl = []
        for g in self.m.globals.values():
            if "__vc_contract_" in g.name and g.init is not None and g.init.kind == "agg":
                pat = self.cstring(g.init.args[0])
                stub = g.init.args[1]
                group = g.name.split("__vc_contract_")[1]
                self.contract_decl.append((group, pat, stub.v))

    def enable_contracts(self, pred=lambda g: True):
        self.repl = {}
        for group, pat, stub in self.contract_decl:
            if not pred(group):
                continue
            rx = re.compile(pat)
            for n, d in self.dem.items():
                if n != stub and rx.search(d) and not d.startswith("llvm."):
                    self.repl[n] = stub

    def cstring(self, c):
        while c.kind == "expr" and c.op == "gep":
            c = c.args[0]
        g = self.m.globals[c.v]
        if g.init.kind == "zero":
            return ""
        return "".join(chr(a.v) for a in g.init.args[:-1])

    # ---------------------------------------------------------------- values
    def fresh(self, w, name="h"):
        n = "%s!%d" % (name, next(self.fresh_n))
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def bv(self, v, w, st=None):
        """to z3 bit-vector of width w"""
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, Ptr):
            v = self.addr(st, v)
            if isinstance(v, int):
                return z3.BitVecVal(v, w)
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if v.size() != w:
            raise Undecided("width mismatch %d %d" % (v.size(), w))
        return v

    def boolv(self, v):
        if isinstance(v, (int, bool)):
            return z3.BoolVal(bool(v))
        if z3.is_bool(v):
            return v
        return v == z3.BitVecVal(1, v.size()) if v.size() == 1 else v != 0

    def addr(self, st, p):
        if p.obj is None:
            return p.off
        b = self.base(st, p.obj)
        if isinstance(p.off, int) and p.off == 0:
            return b
        return b + self.bv(p.off, 64)

    def base(self, st, obj):
        b = st.bases.get(obj)
        if b is not None:
            return b
        m = st.mem.get(obj)
        b = z3.BitVec("base!%s" % obj, 64)
        align = 16
        size = m.size if m is not None else 16
        sz = self.bv(size, 64)
        cs = [z3.UGE(b, 4096), z3.ULE(b, z3.BitVecVal((1 << 47), 64) - sz), z3.ULE(sz, z3.BitVecVal(1 << 46, 64))]
        tag = (m.tag or {}) if m is not None else {}
        al = tag.get("align", 16)
        if al > 1:
            cs.append(z3.Extract(al.bit_length() - 2, 0, b) == 0)
        for o2, b2 in st.bases.items():
            m2 = st.mem.get(o2)
            s2 = self.bv(m2.size if m2 is not None else 16, 64)
            cs.append(z3.Or(z3.ULT(b + sz, b2), z3.ULT(b2 + s2, b)))
        st.bases[obj] = b
        for c in cs:
            st.pc.append(c)
        st.model = None
        return b

    def as_ptr(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            return Ptr(None, v)
        return Ptr(None, v)

    # ---------------------------------------------------------------- constants
    def cval(self, st, c):
        k = c.kind
        if k == "int":
            return c.v
        if k == "null":
            return NULL
        if k == "undef":
            return self.zero(c.ty, undef=True)
        if k == "zero":
            return self.zero(c.ty)
        if k == "agg":
            return [self.cval(st, a) for a in c.args]
        if k == "glob":
            return Ptr(self.gobj(st, c.v), 0)
        if k == "func":
            return Ptr(self.fobj(c.v), 0)
        if k == "alias":
            a = self.m.aliases[c.v]
            return self.cval(st, a)
        if k == "fp":
            return ("fp", c.v)
        if k == "expr":
            a = [self.cval(st, x) for x in c.args]
            return self.constop(st, c, a)
        raise Undecided("const " + k)

    def constop(self, st, c, a):
        if c.op == "gep":
            return self.gep(st, c.extra, a, [x.ty for x in c.args])
        if c.op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
            return a[0]
        if c.op in ("add", "sub", "and", "or", "xor", "shl", "lshr", "mul"):
            return self.binop(st, c.op, a[0], a[1], c.ty.width, None)
        if c.op == "icmp":
            return self.icmp(st, c.extra, a[0], a[1], c.args[0].ty)
        if c.op == "trunc":
            return self.trunc(st, a[0], c.args[0].ty.width, c.ty.width)
        raise Undecided("const expr " + c.op)

    def zero(self, ty, undef=False):
        if ty is None:
            return 0
        if ty.kind == "int":
            return self.fresh(ty.width, "undef") if undef else 0
        if ty.kind == "ptr":
            return NULL
        if ty.kind == "struct":
            return [self.zero(t, undef) for t in ty.elems]
        if ty.kind in ("array", "vector"):
            return [self.zero(ty.elem, undef) for _ in range(ty.n)]
        if ty.kind in ("float", "double"):
            return ("fp", "0")
        return 0

    def fobj(self, name):
        if name not in self.funcobj:
            o = "f:" + name
            self.funcobj[name] = o
        return self.funcobj[name]

    def gobj(self, st, name):
        o = "g:" + name
        if o not in st.mem:
            g = self.m.globals[name]
            m = MemData()
            m.cells, m.arr, m.alive, m.gran, m.kind, m.ro, m.owner, m.region, m.tag = {}, None, True, 1, "global", False, st.tok, None, None
            m.name = name
            m.size = g.ty.size
            st.mem[o] = m
            if g.init is not None:
                self.init_cells(st, m, 0, g.init)
            # external global without initializer: contents arbitrary
            m.ro = g.const
        return o

    def init_cells(self, st, m, off, c):
        ty = c.ty
        if c.kind == "undef":
            return
        if c.kind == "zero" or (c.kind == "null" and ty.kind == "ptr"):
            self.zero_cells(m, off, ty)
            return
        if c.kind == "agg":
            if ty.kind == "struct":
                for a, o in zip(c.args, ty.offs):
                    self.init_cells(st, m, off + o, a)
            else:
                for i, a in enumerate(c.args):
                    self.init_cells(st, m, off + i * ty.elem.size, a)
            return
        m.cells[off] = (ty.store, self.cval(st, c))

    def zero_cells(self, m, off, ty):
        if ty.kind == "struct":
            for t, o in zip(ty.elems, ty.offs):
                self.zero_cells(m, off + o, t)
        elif ty.kind in ("array", "vector"):
            if ty.size > 65536:
                raise Undecided("huge zero global")
            for i in range(ty.n):
                self.zero_cells(m, off + i * ty.elem.size, ty.elem)
        elif ty.kind == "ptr":
            m.cells[off] = (8, NULL)
        else:
            m.cells[off] = (ty.store, 0)

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, kind, name, tag=None, zero=False):
        n = st.counter.get("alloc", 0)
        st.counter["alloc"] = n + 1
        # deterministic per path: same program point on sibling paths shares the name
        o = "o%d" % n
        while o in st.mem:
            n += 1
            o = "o%d" % n
        st.counter["alloc"] = n + 1
        m = MemData()
        m.cells, m.arr, m.size, m.alive, m.gran = {}, None, size, True, 1
        m.name, m.kind, m.ro, m.owner, m.region, m.tag = name, kind, False, st.tok, None, tag
        if zero:
            m.arr = z3.K(BV64, z3.BitVecVal(0, 8))
        st.mem[o] = m
        return Ptr(o, 0)

    def mw(self, st, o):
        m = st.mem[o]
        if m.owner != st.tok:
            m = m.copy(st.tok)
            st.mem[o] = m
        return m

    def arr_of(self, m, o):
        if m.arr is None:
            m.arr = z3.Array("mem!%s!%d" % (o, m.gran), BV64, z3.BitVecSort(8 * m.gran))
        return m.arr

    def resolve(self, st, p, n, what):
        """pointer -> Ptr with object; emits the in-bounds obligation; returns (obj, off)"""
        if p.obj is None:
            if isinstance(p.off, int):
                self.fail_ob(st, "memory-safety: %s at address %#x" % (what, p.off))
                raise PathEnd("bad access")
            # try to find provenance
            off = z3.simplify(p.off)
            if z3.is_bv_value(off):
                return self.resolve(st, Ptr(None, off.as_long()), n, what)
            cands = []
            txt = None
            for o, b in st.bases.items():
                m = st.mem.get(o)
                if m is None or not m.alive:
                    continue
                d = z3.simplify(off - b)
                sz = self.bv(m.size, 64)
                inr = z3.And(z3.ULE(d, sz), z3.ULE(z3.BitVecVal(n, 64), sz - d))
                cands.append((o, d, inr))
            # order: objects whose base occurs in the expression first
            for o, d, inr in sorted(cands, key=lambda c: 0 if not self.mentions(c[1], st.bases[c[0]]) else 1):
                r, mod = self.sol.check(st.pc, [inr])
                if r == "unsat":
                    continue
                r2, mod2 = self.sol.check(st.pc, [z3.Not(inr)])
                if r2 == "unsat":
                    if z3.is_bv_value(d):
                        d = d.as_long()
                    return o, d
                raise Fork(inr)
            self.fail_ob(st, "memory-safety: %s through a pointer that is in no object" % what)
            raise PathEnd("bad access")
        o = p.obj
        if o.startswith("f:"):
            self.fail_ob(st, "memory-safety: %s of a function" % what)
            raise PathEnd("bad access")
        if o.startswith("g:") and o not in st.mem:
            self.gobj(st, o[2:])
        m = st.mem[o]
        if not m.alive:
            self.fail_ob(st, "memory-safety: %s after lifetime end of %s" % (what, m.name))
            raise PathEnd("bad access")
        off = p.off
        if isinstance(off, int) and isinstance(m.size, int):
            if off >= (1 << 63) or off + n > m.size:
                self.fail_ob(st, "memory-safety: %s out of bounds of %s" % (what, m.name))
                raise PathEnd("bad access")
            return o, off
        sz = self.bv(m.size, 64)
        ob = self.bv(off, 64)
        self.check(st, z3.And(z3.ULE(z3.BitVecVal(n, 64), sz), z3.ULE(ob, sz - n)),
                   "memory-safety: %s in bounds of %s" % (what, m.name))
        if not isinstance(off, int):
            off = self.conc_off(st, off)
        return o, off

    def mentions(self, e, b):
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(b):
                return True
            st.extend(x.children())
        return False

    def conc_off(self, st, off):
        off = z3.simplify(off)
        if z3.is_bv_value(off):
            return off.as_long()
        return off

    def flush(self, m, o):
        """push concrete cells into the array"""
        if not m.cells:
            return
        g = m.gran
        a = self.arr_of(m, o)
        for off in sorted(m.cells):
            n, v = m.cells[off]
            if g == 1:
                bs = self.tobytes_w(v, n)
                for i, b in enumerate(bs):
                    a = z3.Store(a, z3.BitVecVal(off + i, 64), b)
            else:
                if off % g == 0 and n == g:
                    a = z3.Store(a, z3.BitVecVal(off, 64), self.bv(v, 8 * g, self._st))
                else:
                    al = off - off % g
                    if off + n > al + g:
                        raise Undecided("cell crosses granule")
                    cur = self.sel(a, z3.BitVecVal(al, 64))
                    a = z3.Store(a, z3.BitVecVal(al, 64), self.splice(cur, g, off - al, n, v))
        m.cells = {}
        m.arr = a

    def sel(self, a, i):
        """select that reduces through stores on top of lambda arrays (symbolic copies)"""
        if not self.has_lambda(a):
            return z3.Select(a, i)
        if z3.is_store(a):
            c = z3.simplify(a.arg(1) == i)
            if z3.is_true(c):
                return a.arg(2)
            if z3.is_false(c):
                return self.sel(a.arg(0), i)
            return z3.If(c, a.arg(2), self.sel(a.arg(0), i))
        if z3.is_quantifier(a):
            return z3.substitute_vars(a.body(), i)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), self.sel(a.arg(1), i), self.sel(a.arg(2), i))
        return z3.Select(a, i)

    def has_lambda(self, a):
        while True:
            if z3.is_store(a):
                a = a.arg(0)
                continue
            if z3.is_quantifier(a):
                return True
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                return self.has_lambda(a.arg(1)) or self.has_lambda(a.arg(2))
            return False

    def splice(self, cur, g, r, n, v):
        parts = []
        if r + n < g:
            parts.append(z3.Extract(8 * g - 1, 8 * (r + n), cur))
        parts.append(self.bv(v, 8 * n, self._st))
        if r > 0:
            parts.append(z3.Extract(8 * r - 1, 0, cur))
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]

    def tobytes_w(self, v, n):
        if isinstance(v, int):
            return [z3.BitVecVal((v >> (8 * i)) & 255, 8) for i in range(n)]
        b = self.bv(v, 8 * n, self._st)
        return [z3.Extract(8 * i + 7, 8 * i, b) for i in range(n)]

    def cell_at(self, m, byte):
        """(off, n, v) of the cell covering this byte or None"""
        c = m.cells.get(byte)
        if c is not None:
            return byte, c[0], c[1]
        for d in range(1, 16):
            c = m.cells.get(byte - d)
            if c is not None:
                if c[0] > d:
                    return byte - d, c[0], c[1]
                # cells never overlap; keep searching further back only if it could cover
        return None

    def read(self, st, o, off, n):
        m = st.mem[o]
        if isinstance(off, int):
            c = m.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            # any overlap?
            over = False
            for i in range(n):
                if self.cell_at(m, off + i) is not None:
                    over = True
                    break
            if not over:
                if m.arr is None and m.gran == 1:
                    v = z3.BitVec("init!%s!%d!%d" % (o, off, n), 8 * n)
                    mm = self.mw(st, o)
                    mm.cells[off] = (n, v)
                    mm.region = (mm.region or ()) + ((off, n, v),)
                    return v
                if m.gran == 1:
                    a = m.arr
                    bs = [self.sel(a, z3.BitVecVal(off + i, 64)) for i in range(n)]
                    v = z3.simplify(z3.Concat(*reversed(bs)) if n > 1 else bs[0])
                    if z3.is_bv_value(v):
                        return v.as_long()
                    return v
                mm = self.mw(st, o)
                return self.read_gran(st, mm, o, off, n)
            bs = []
            i = 0
            for i in range(n):
                c = self.cell_at(m, off + i)
                if c is None:
                    if m.arr is None and m.gran == 1:
                        mm = self.mw(st, o)
                        bvv = z3.BitVec("init!%s!%d!1" % (o, off + i), 8)
                        mm.cells[off + i] = (1, bvv)
                        mm.region = (mm.region or ()) + ((off + i, 1, bvv),)
                        m = mm
                        bs.append(bvv)
                    else:
                        if m.gran != 1:
                            mm = self.mw(st, o)
                            self._st = st
                            self.flush(mm, o)
                            return self.read_gran(st, mm, o, off, n)
                        bs.append(self.sel(m.arr, z3.BitVecVal(off + i, 64)))
                else:
                    co, cn, cv = c
                    k = off + i - co
                    if isinstance(cv, int):
                        bs.append((cv >> (8 * k)) & 255)
                    else:
                        b = self.bv(cv, 8 * cn, st)
                        bs.append(z3.Extract(8 * k + 7, 8 * k, b))
            if all(isinstance(b, int) for b in bs):
                return sum(b << (8 * i) for i, b in enumerate(bs))
            bs = [z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in bs]
            v = z3.simplify(z3.Concat(*reversed(bs)) if n > 1 else bs[0])
            return v.as_long() if z3.is_bv_value(v) else v
        # symbolic offset
        mm = self.mw(st, o)
        self._st = st
        self.flush(mm, o)
        if mm.gran == 1:
            a = self.arr_of(mm, o)
            bs = [self.sel(a, off + i) if i else self.sel(a, off) for i in range(n)]
            return z3.simplify(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
        return self.read_gran(st, mm, o, off, n)

    def split_gran(self, st, off, g):
        if isinstance(off, int):
            return z3.BitVecVal(off - off % g, 64), off % g
        r = self.known_rem(st, off, g)
        return (off - r if r else off), r

    def known_rem(self, st, off, g):
        lo = z3.simplify(z3.Extract(g.bit_length() - 2, 0, off)) if g & (g - 1) == 0 else z3.simplify(z3.URem(off, z3.BitVecVal(g, 64)))
        if z3.is_bv_value(lo):
            return lo.as_long()
        r, mod = self.sol.check(st.pc)
        if r != "sat":
            raise PathEnd("infeasible")
        v = mod.eval(lo, model_completion=True)
        r, _ = self.sol.check(st.pc, [lo != v])
        if r != "unsat":
            raise Undecided("offset not aligned to the object granule %d" % g)
        return v.as_long()

    def read_gran(self, st, m, o, off, n):
        g = m.gran
        al, r = self.split_gran(st, off, g)
        a = self.arr_of(m, o)
        if r + n > g:
            # spans granules (aligned start only)
            if r == 0 and n % g == 0:
                vs = [self.sel(a, al + k) for k in range(0, n, g)]
                return z3.Concat(*reversed(vs))
            raise Undecided("access crosses granule")
        v = self.sel(a, al)
        if n == g:
            return v
        return z3.Extract(8 * (r + n) - 1, 8 * r, v)

    def write(self, st, o, off, n, v):
        m = self.mw(st, o)
        if m.ro:
            raise Undecided("write to constant global " + m.name)
        for cx in st.ctxs:
            if int(o[1:]) < cx.oidmark if o[0] == "o" else True:
                st.wlog = (o, off if isinstance(off, int) else None, n, st.wlog)
                break
        if isinstance(off, int):
            # split overlapping cells
            c = m.cells.get(off)
            if c is not None and c[0] == n:
                m.cells[off] = (n, v)
                return
            i = 0
            while i < n:
                c = self.cell_at(m, off + i)
                if c is None:
                    i += 1
                    continue
                co, cn, cv = c
                del m.cells[co]
                if co < off or co + cn > off + n:
                    # keep the remaining bytes
                    for k in range(cn):
                        b = co + k
                        if b < off or b >= off + n:
                            if isinstance(cv, int):
                                m.cells[b] = (1, (cv >> (8 * k)) & 255)
                            else:
                                bb = self.bv(cv, 8 * cn, st)
                                m.cells[b] = (1, z3.simplify(z3.Extract(8 * k + 7, 8 * k, bb)))
                i = max(i + 1, co + cn - off)
            m.cells[off] = (n, v)
            return
        self._st = st
        self.flush(m, o)
        a = self.arr_of(m, o)
        g = m.gran
        if g == 1:
            for i, b in enumerate(self.tobytes_w(v, n)):
                a = z3.Store(a, off + i if i else off, b)
        else:
            al, r = self.split_gran(st, off, g)
            if n == g:
                a = z3.Store(a, al, self.bv(v, 8 * g, st))
            elif r + n <= g:
                a = z3.Store(a, al, self.splice(self.sel(a, al), g, r, n, v))
            else:
                raise Undecided("write crosses granule")
        m.arr = a

    # typed access
    def load_ty(self, st, o, off, ty):
        if ty.kind == "int":
            n = ty.store
            v = self.read(st, o, off, n)
            if ty.width == 8 * n:
                return self.norm(v)
            if isinstance(v, Ptr):
                v = self.bv(v, 8 * n, st)
            return self.trunc(st, v, 8 * n, ty.width)
        if ty.kind == "ptr":
            v = self.read(st, o, off, 8)
            return self.as_ptr(v)
        if ty.kind == "struct":
            return [self.load_ty(st, o, self.offadd(off, fo), t) for t, fo in zip(ty.elems, ty.offs)]
        if ty.kind in ("array", "vector"):
            return [self.load_ty(st, o, self.offadd(off, i * ty.elem.size), ty.elem) for i in range(ty.n)]
        if ty.kind in ("float", "double"):
            v = self.read(st, o, off, ty.store)
            return v if isinstance(v, tuple) else ("fpbits", v)
        raise Undecided("load " + ty.kind)

    def store_ty(self, st, o, off, ty, v):
        if ty.kind == "int":
            if ty.width != 8 * ty.store:
                v = self.zext(st, v, ty.width, 8 * ty.store)
            self.write(st, o, off, ty.store, v)
        elif ty.kind == "ptr":
            self.write(st, o, off, 8, v)
        elif ty.kind == "struct":
            for t, fo, x in zip(ty.elems, ty.offs, v):
                self.store_ty(st, o, self.offadd(off, fo), t, x)
        elif ty.kind in ("array", "vector"):
            for i, x in enumerate(v):
                self.store_ty(st, o, self.offadd(off, i * ty.elem.size), ty.elem, x)
        elif ty.kind in ("float", "double"):
            if isinstance(v, tuple) and v[0] == "fpbits":
                v = v[1]
                self.write(st, o, off, ty.store, v)
            elif isinstance(v, tuple):
                self.write(st, o, off, ty.store, self.fpconst(v[1], ty))
            else:
                self.write(st, o, off, ty.store, v)
        else:
            raise Undecided("store " + ty.kind)

    def fpconst(self, txt, ty):
        import struct
        t = txt.split()[-1]
        f = float.fromhex(t) if False else None
        if t.startswith("0x"):
            bits = int(t, 16)
            d = struct.unpack("<d", struct.pack("<Q", bits))[0]
        else:
            d = float(t)
        if ty.kind == "float":
            return struct.unpack("<I", struct.pack("<f", d))[0]
        return struct.unpack("<Q", struct.pack("<d", d))[0]

    def offadd(self, off, k):
        if k == 0:
            return off
        if isinstance(off, int):
            return mask(off + k, 64)
        return off + z3.BitVecVal(k, 64)

    def norm(self, v):
        if is_expr(v) and z3.is_bv_value(v):
            return v.as_long()
        return v

    # ---------------------------------------------------------------- operations
    def binop(self, st, op, a, b, w, flags):
        if isinstance(a, Ptr) and a.obj is None:
            a = a.off
        if isinstance(b, Ptr) and b.obj is None:
            b = b.off
        if isinstance(a, int) and isinstance(b, int):
            return self.binop_c(st, op, a, b, w, flags)
        if w == 64 and (isinstance(a, Ptr) or isinstance(b, Ptr)):
            if op == "add":
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return Ptr(a.obj, self.add64(a.off, b))
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return Ptr(b.obj, self.add64(b.off, a))
            if op == "sub":
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    return self.sub64(a.off, b.off)
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return Ptr(a.obj, self.sub64(a.off, b))
            a = self.bv(a, 64, st)
            b = self.bv(b, 64, st)
        if w == 1:
            a, b = self.boolv(a), self.boolv(b)
            if op == "and":
                r = z3.And(a, b)
            elif op == "or":
                r = z3.Or(a, b)
            elif op in ("xor", "add", "sub"):
                r = z3.Xor(a, b)
            else:
                raise Undecided("i1 " + op)
            return self.sbool(r)
        # cheap identities
        if isinstance(b, int):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op == "and" and b == (1 << w) - 1:
                return a
            if op in ("and", "mul") and b == 0:
                return 0
            if op in ("mul", "udiv") and b == 1:
                return a
        if isinstance(a, int):
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("and", "mul", "shl", "lshr"):
                return 0
            if a == 1 and op == "mul":
                return b
        A, B = self.bv(a, w, st), self.bv(b, w, st)
        if op == "add":
            if flags and flags[1]:
                self.ub(st, z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)), "signed addition overflow")
            r = A + B
        elif op == "sub":
            if flags and flags[1]:
                self.ub(st, z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)), "signed subtraction overflow")
            r = A - B
        elif op == "mul":
            if flags and flags[1]:
                self.ub(st, z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)), "signed multiplication overflow")
            r = A * B
        elif op in ("udiv", "sdiv", "urem", "srem"):
            self.check(st, B != 0, "ub: division by zero")
            if op == "udiv":
                r = z3.UDiv(A, B)
            elif op == "urem":
                r = z3.URem(A, B)
            elif op == "sdiv":
                self.ub(st, z3.Not(z3.And(A == (1 << (w - 1)), B == (1 << w) - 1)), "signed division overflow")
                r = A / B
            else:
                r = z3.SRem(A, B)
        elif op in ("shl", "lshr", "ashr"):
            if not isinstance(b, int):
                self.ub(st, z3.ULT(B, w), "shift amount too large")
            elif b >= w:
                self.fail_ob(st, "ub: shift amount too large")
                raise PathEnd("ub")
            r = A << B if op == "shl" else z3.LShR(A, B) if op == "lshr" else A >> B
        elif op == "and":
            r = A & B
        elif op == "or":
            r = A | B
        elif op == "xor":
            r = A ^ B
        else:
            raise Undecided("binop " + op)
        return self.norm(z3.simplify(r)) if self.small(r) else r

    def small(self, r):
        # simplify only shallow terms; deep ones are left to the solver
        n = 0
        st = [(r, 0)]
        while st:
            x, d = st.pop()
            n += 1
            if n > 60:
                return False
            for c in x.children():
                st.append((c, d + 1))
        return True

    def add64(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return mask(a + b, 64)
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return b
        r = self.bv(a, 64) + self.bv(b, 64)
        return self.norm(z3.simplify(r)) if self.small(r) else r

    def sub64(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return mask(a - b, 64)
        if isinstance(b, int) and b == 0:
            return a
        r = self.bv(a, 64) - self.bv(b, 64)
        return self.norm(z3.simplify(r)) if self.small(r) else r

    def binop_c(self, st, op, a, b, w, flags):
        if op in ("add", "sub", "mul"):
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            if flags and flags[1]:
                s = sgn(a, w) + sgn(b, w) if op == "add" else sgn(a, w) - sgn(b, w) if op == "sub" else sgn(a, w) * sgn(b, w)
                if not (-(1 << (w - 1)) <= s < (1 << (w - 1))):
                    if self.o["ub"]:
                        self.fail_ob(st, "ub: signed %s overflow" % op)
                        raise PathEnd("ub")
            return mask(r, w)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if b == 0:
                self.fail_ob(st, "ub: division by zero")
                raise PathEnd("ub")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return mask(q if op == "sdiv" else sa - q * sb, w)
        if op in ("shl", "lshr", "ashr"):
            if b >= w:
                self.fail_ob(st, "ub: shift amount too large")
                raise PathEnd("ub")
            return mask(a << b, w) if op == "shl" else a >> b if op == "lshr" else mask(sgn(a, w) >> b, w)
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        raise Undecided(op)

    def ub(self, st, cond, what):
        if self.o["ub"]:
            self.check(st, cond, "ub: " + what)

    def sbool(self, r):
        if self.small(r):
            r = z3.simplify(r)
            if z3.is_true(r):
                return 1
            if z3.is_false(r):
                return 0
        return r

    def trunc(self, st, v, w0, w):
        if w0 == w:
            return v
        if isinstance(v, int):
            return mask(v, w)
        v = self.bv(v, w0, st)
        if w == 1:
            return self.sbool(z3.Extract(0, 0, v) == 1)
        r = z3.Extract(w - 1, 0, v)
        return self.norm(z3.simplify(r)) if self.small(r) else r

    def zext(self, st, v, w0, w):
        if isinstance(v, int):
            return v
        if isinstance(v, Ptr):
            v = self.bv(v, w0, st)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        r = z3.ZeroExt(w - w0, v)
        return self.norm(z3.simplify(r)) if self.small(r) else r

    def sext(self, st, v, w0, w):
        if isinstance(v, int):
            return mask(sgn(v, w0), w)
        if isinstance(v, Ptr):
            v = self.bv(v, w0, st)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal((1 << w) - 1, w), z3.BitVecVal(0, w))
        r = z3.SignExt(w - w0, v)
        return self.norm(z3.simplify(r)) if self.small(r) else r

    def icmp(self, st, p, a, b, ty):
        if ty.kind == "ptr" or isinstance(a, Ptr) or isinstance(b, Ptr):
            a = a if isinstance(a, Ptr) else Ptr(None, a)
            b = b if isinstance(b, Ptr) else Ptr(None, b)
            if a.obj == b.obj:
                x, y, w = a.off, b.off, 64
                if a.obj is not None and p in ("slt", "sle", "sgt", "sge"):
                    x, y = self.bv(a, 64, st), self.bv(b, 64, st)
            elif p in ("eq", "ne") and a.obj is not None and b.obj is not None and not (
                    a.obj in st.bases and b.obj in st.bases):
                return 1 if p == "ne" else 0
            elif p in ("eq", "ne") and (a.obj is None or b.obj is None):
                n, q = (a, b) if a.obj is None else (b, a)
                if isinstance(n.off, int) and n.off < 4096:
                    return 1 if p == "ne" else 0
                x, y, w = self.bv(a, 64, st), self.bv(b, 64, st), 64
            else:
                x, y, w = self.bv(a, 64, st), self.bv(b, 64, st), 64
        else:
            x, y, w = a, b, ty.width
        if isinstance(x, int) and isinstance(y, int):
            if p[0] == "s":
                x, y = sgn(x, w), sgn(y, w)
            return int({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}
                       [p if p in ("eq", "ne") else p[1:]])
        if w == 1:
            x, y = self.boolv(x), self.boolv(y)
            if p == "eq":
                return self.sbool(x == y)
            if p == "ne":
                return self.sbool(z3.Xor(x, y))
            x, y = self.bv(x, 1), self.bv(y, 1)
        x, y = self.bv(x, w, st), self.bv(y, w, st)
        if p == "eq":
            r = x == y
        elif p == "ne":
            r = x != y
        elif p == "ugt":
            r = z3.UGT(x, y)
        elif p == "uge":
            r = z3.UGE(x, y)
        elif p == "ult":
            r = z3.ULT(x, y)
        elif p == "ule":
            r = z3.ULE(x, y)
        elif p == "sgt":
            r = x > y
        elif p == "sge":
            r = x >= y
        elif p == "slt":
            r = x < y
        else:
            r = x <= y
        return self.sbool(r)

    def ite(self, st, c, a, b, ty):
        if isinstance(c, int):
            return a if c else b
        if ty.kind == "ptr" or isinstance(a, Ptr) or isinstance(b, Ptr):
            a = a if isinstance(a, Ptr) else Ptr(None, a)
            b = b if isinstance(b, Ptr) else Ptr(None, b)
            if a.obj == b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return a
                return Ptr(a.obj, z3.If(c, self.bv(a.off, 64), self.bv(b.off, 64)))
            return a if self.decide(st, c) else b
        if ty.kind == "int":
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if ty.width == 1:
                return self.sbool(z3.If(c, self.boolv(a), self.boolv(b)))
            return z3.If(c, self.bv(a, ty.width, st), self.bv(b, ty.width, st))
        return a if self.decide(st, c) else b

    def decide(self, st, c):
        """the truth of c on this path; forks the path if both are possible"""
        if self.sol.check(st.pc, [c])[0] == "unsat":
            return False
        if self.sol.check(st.pc, [z3.Not(c)])[0] == "unsat":
            return True
        raise Fork(c)

    def gep(self, st, ty, a, tys):
        p = a[0]
        p = p if isinstance(p, Ptr) else Ptr(None, p)
        off = p.off
        cur = None
        for i, (x, t) in enumerate(zip(a[1:], tys[1:])):
            if i == 0:
                cur = ty
                sz = ty.size
            elif cur.kind == "struct":
                k = x
                off = self.offadd(off, cur.offs[k])
                cur = cur.elems[k]
                continue
            else:
                cur = cur.elem
                sz = cur.size
            if isinstance(x, Ptr):
                x = self.bv(x, 64, st)
            if isinstance(x, int):
                off = self.offadd(off, mask(sgn(x, t.width) * sz, 64))
            else:
                if z3.is_bool(x):
                    x = self.bv(x, t.width)
                xx = z3.SignExt(64 - t.width, x) if t.width < 64 else x
                off = self.add64(off, xx * z3.BitVecVal(sz, 64) if sz != 1 else xx)
        return Ptr(p.obj, off)

    # ---------------------------------------------------------------- obligations
    def feasible(self, st, extra=()):
        if not extra:
            if st.model is not None:
                return True
            r, m = self.sol.check(st.pc)
        else:
            r, m = self.sol.check(st.pc, extra)
        if r == "unknown":
            return True
        if r == "sat":
            if not extra:
                st.model = m
            return True
        return False

    def check(self, st, cond, label, assume=True):
        """proof obligation: pc => cond"""
        if isinstance(cond, (int, bool)):
            if not cond:
                self.fail_ob(st, label)
                raise PathEnd("assert")
            if not self.muted:
                ob = self.res.obligations.setdefault(label, [0, 0, 0])
                ob[0] += 1
                ob[2] += 1
            return
        c = z3.simplify(cond) if self.small(cond) else cond
        if z3.is_true(c):
            if not self.muted:
                ob = self.res.obligations.setdefault(label, [0, 0, 0])
                ob[0] += 1
                ob[2] += 1
            return
        if self.muted:
            # invariants are inferred on the paths where the claim holds; it is checked in the final pass
            st.pc.append(c)
            st.model = None
            return
        ob = self.res.obligations.setdefault(label, [0, 0, 0])
        ob[0] += 1
        r, m = self.sol.check(st.pc, [z3.Not(c)])
        if r == "unsat":
            return
        if r == "unknown":
            ob[1] += 1
            self.res.undecided.append("solver unknown on: " + label)
            st.pc.append(c)
            return
        ob[1] += 1
        self.record(st, label, m)
        st.pc.append(c)
        st.model = None
        if not self.feasible(st):
            raise PathEnd("assert")

    def fail_ob(self, st, label):
        if self.muted:
            raise PathEnd("muted failure")
        ob = self.res.obligations.setdefault(label, [0, 0, 0])
        ob[0] += 1
        r, m = self.sol.check(st.pc)
        if r == "unsat":
            ob[2] += 1
            raise PathEnd("infeasible")
        ob[1] += 1
        if r == "unknown":
            self.res.undecided.append("solver unknown on: " + label)
            return
        self.record(st, label, m)

    def record(self, st, label, model):
        # a refuted contract: what else there is to find gets a limited time
        t = time.time() + self.o.get("after_fail", 60)
        if self.deadline is None or self.deadline > t:
            self.deadline = t
        if sum(1 for f in self.res.failures if f["label"] == label) >= 8:
            return
        vals = []
        mems = []
        for name, w, v in st.havocs:
            if name == "@M":
                mems.append(self.init_bytes(st, model, w, v))
                continue
            if isinstance(v, int):
                vals.append((name, w, v))
            else:
                e = model.eval(self.bv(v, w, st) if w > 1 or not z3.is_bool(v) else v, model_completion=True)
                if z3.is_bool(e):
                    vals.append((name, w, int(z3.is_true(e))))
                else:
                    vals.append((name, w, e.as_long()))
        where = " < ".join(self.dem.get(f.fn.name, f.fn.name)[:100] for f in reversed(st.frames[-4:]))
        cut = any(x.startswith("cut") for x in st.trace)
        import os
        if os.environ.get("VC_DBG"):
            print("FAIL", label, vals, mems, st.trace)
        self.res.failures.append(dict(label=label, havocs=vals, mems=mems, where=where, cut=cut, contracts=bool(st.replog)))
        if self.o["verbose"]:
            print("  FAILED", label, "at", where)
        if self.o["first"]:
            raise StopIteration

    def init_bytes(self, st, model, name, o):
        """initial contents of an arbitrary block in a model"""
        m = st.mem[o]
        def ev(x):
            r = model.eval(x, model_completion=True)
            return r.as_long()
        size = m.size if isinstance(m.size, int) else ev(m.size)
        size = min(size, 1 << 15)
        g = m.gran
        a = z3.Array("mem!%s!%d" % (o, g), BV64, z3.BitVecSort(8 * g))
        out = bytearray()
        for i in range(0, size, g):
            out += ev(z3.Select(a, z3.BitVecVal(i, 64))).to_bytes(g, "little")
        for off, n, v in (m.region or ()):
            out[off:off + n] = ev(v).to_bytes(n, "little")
        return (name, bytes(out[:size]))

    # ---------------------------------------------------------------- running
    def new_state(self):
        st = State()
        st.frames, st.mem, st.pc, st.model, st.bases = [], {}, [], None, {}
        st.havocs, st.hints, st.termok, st.ctxs, st.trace = [], [], 0, [], []
        st.regions, st.covers, st.replog, st.counter, st.exc = [], [], [], {}, None
        st.locks, st.wlog = {}, None
        st.tok = next(State._n)
        return st

    def push(self, st, fn, args, dest=None, ty=None, normal=None, on_ret=None):
        F = self.m.func(fn)
        if F.decl:
            raise Undecided("call to unmodelled external function %s" % self.dem.get(fn, fn))
        self.res.funcs.add(fn)
        fr = Frame()
        fr.fn, fr.blk, fr.prev, fr.ip, fr.vals = F, F.blocks[0], None, 0, {}
        fr.dest, fr.normal, fr.on_ret, fr.allocas, fr.iters, fr.ty, fr.tag = dest, normal, on_ret, [], {}, ty, None
        for p, a in zip(F.params, args):
            fr.vals[p.id] = a
        if len(st.frames) > 400:
            raise Undecided("recursion depth")
        st.frames.append(fr)

    def run(self, entry):
        st = self.new_state()
        for c in self.ctors():
            self.push(st, c, [])
            states = self.explore([st])
            if len(states) != 1:
                raise Undecided("global constructor forks")
            st = states[0]
        self.push(st, entry, [])
        t0 = time.time()
        if self.o["timeout"]:
            self.deadline = t0 + self.o["timeout"]
        try:
            self.final = self.explore([st])
        except StopIteration:
            self.final = []
        self.res.time = time.time() - t0
        return self.res

    def ctors(self):
        g = self.m.globals.get("llvm.global_ctors")
        if g is None or g.init is None or g.init.kind != "agg":
            return []
        out = []
        ents = sorted(g.init.args, key=lambda a: a.args[0].v)
        for e in ents:
            f = e.args[1]
            if f.kind == "func":
                out.append(f.v)
        return out

    def explore(self, work):
        """runs states to completion; returns the states whose outermost frame returned"""
        done = []
        work = list(work)
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Undecided("time limit")
            try:
                out = self.run_state(st)
            except PathEnd as e:
                self.end_path(st, e.why)
                continue
            for s in out:
                if not s.frames:
                    done.append(s)
                    self.end_path(s, "return")
                else:
                    work.append(s)
            if self.res.paths > self.o["max_paths"]:
                raise Undecided("path limit")
        return done

    def end_path(self, st, why):
        if not self.muted:
            self.res.paths += 1
            if self.o["verbose"] > 1:
                print("   path end", why, st.trace[-3:])

    def val(self, st, fr, a):
        if type(a) is Local:
            return fr.vals[a.id]
        return self.cval(st, a)

    def split(self, st, cond):
        """-> list of (state, truth)"""
        cond = self.boolv(cond)
        nc = z3.Not(cond)
        t = f = None
        if st.model is not None:
            ev = st.model.eval(cond, model_completion=True)
            if z3.is_true(ev):
                t = True
            elif z3.is_false(ev):
                f = True
        mt = mf = None
        if t:
            mt = st.model
        else:
            r, mt = self.sol.check(st.pc, [cond])
            t = r != "unsat"
        if f:
            mf = st.model
        else:
            r, mf = self.sol.check(st.pc, [nc])
            f = r != "unsat"
        out = []
        if t and f:
            s2 = st.clone()
            st.pc.append(cond)
            st.model = mt
            s2.pc.append(nc)
            s2.model = mf
            return [(st, True), (s2, False)]
        if t:
            st.model = mt
            return [(st, True)]
        if f:
            st.model = mf
            return [(st, False)]
        raise PathEnd("infeasible")

    def run_state(self, st):
        """executes until the path forks, ends, or returns from the outermost frame"""
        while True:
            fr = st.frames[-1]
            ins = fr.blk.instrs[fr.ip]
            try:
                r = self.step(st, fr, ins)
            except Fork as f:
                return [s for s, _ in self.split(st, f.cond)]
            if r is not None:
                return r
            if not st.frames:
                return [st]

    def jump(self, st, fr, target):
        """transfer control to a block of the same frame; returns None or list of states"""
        src = fr.blk
        F = fr.fn
        depth = len(st.frames)
        # leaving loops / back edges of loops under analysis
        while st.ctxs:
            cx = st.ctxs[-1]
            if cx.depth == depth and cx.body is not None:
                if target.idx == cx.header.idx:
                    fr.prev, fr.blk, fr.ip = src, target, 0
                    cx.back.append(st)
                    raise PathEnd("back-edge")
                if target.idx not in cx.body:
                    st.ctxs.pop()
                    fr.prev, fr.blk, fr.ip = src, target, 0
                    cx.exits.append((st, True))
                    raise PathEnd("loop-exit")
            break
        fr.prev, fr.blk = src, target
        if target.idx in F.headers:
            body = F.loops[target.idx]
            if src.idx not in body or target.idx not in fr.iters:
                fr.iters[target.idx] = 0
                fr.iters[-1 - target.idx] = 0
            else:
                fr.iters[target.idx] += 1
            n = fr.iters[target.idx]
            bnd = self.o["bounded"]
            if bnd is not None:
                if n > 2000 or fr.iters[-1 - target.idx] > bnd:
                    raise PathEnd("bound")
            else:
                r = self.loop(st, fr, target, body, n)
                if r is not None:
                    return r
        self.do_phis(st, fr)
        return None

    def count_sym(self, sides, ins):
        """bounded mode: iterations whose continuation is decided symbolically"""
        for s, _ in sides:
            for fr in s.frames:
                for h in fr.iters:
                    if h >= 0 and fr.blk.idx in fr.fn.loops.get(h, ()):
                        if fr is s.frames[-1]:
                            b = fr.fn.loops[h]
                            if all(x.idx in b for x in ins.x):
                                continue
                        else:
                            continue
                        fr.iters[-1 - h] += 1

    def really_feasible(self, st):
        if st.model is not None:
            return True
        r, m = self.sol.check(st.pc)
        if r == "sat":
            st.model = m
        return r == "sat"

    def do_phis(self, st, fr):
        B = fr.blk
        k = B.nphi
        if k:
            p = fr.prev.idx
            new = []
            for ins in B.instrs[:k]:
                for bi, v in ins.args:
                    if bi == p:
                        new.append((ins.id, self.val(st, fr, v)))
                        break
            for i, v in new:
                fr.vals[i] = v
        fr.ip = k

    # ---------------------------------------------------------------- loops
    def loop(self, st, fr, header, body, n):
        """called on arrival at a loop header (before its phis). None = just continue (unroll)."""
        if n > self.o["max_unroll"]:
            raise Undecided("loop unrolling limit in %s" % self.dem.get(fr.fn.name, fr.fn.name))
        key = (fr.fn.name, header.idx)
        pol = self.o["unroll"]
        if pol is not None and n < pol and not self.force_cut(fr):
            return None
        if pol is not None and n >= pol and not self.force_cut(fr):
            if self.feasible(st):
                raise Undecided("loop in %s exceeds the unrolling bound %d" % (self.dem.get(fr.fn.name, ""), pol))
            raise PathEnd("infeasible")
        # a counter with a small constant bound: every iteration is executed
        sm = self.small_trip(fr.fn, header, body)
        for phi, _ in sm:
            for bi, v in phi.args:
                if bi == fr.prev.idx and isinstance(self.val(st, fr, v), int):
                    return None
        # peek one iteration: is the exit decided symbolically?
        if key not in self.cuts:
            s = st.clone()
            cx, _ = self.iterate(s, header, body)
            if not (cx.back and (cx.exits or cx.ended)):
                return None
        import houdini
        self.cuts[key] = True
        return houdini.cut(self, st, fr, header, body, key)

    def small_trip(self, F, header, body):
        """[(phi, bound)] of the counters of a loop that leave it at a constant bound of at most 16"""
        r = self.smalltrips.get((F.name, header.idx))
        if r is not None:
            return r
        r = []
        defs = {}
        for b in F.blocks:
            if b.idx in body:
                for ins in b.instrs:
                    if ins.id is not None:
                        defs[ins.id] = (ins, b)
        def const(a):
            return a.v if type(a) is Const and a.kind == "int" else None
        for phi in header.instrs[:header.nphi]:
            if phi.ty.kind != "int":
                continue
            inc = None
            for bi, v in phi.args:
                if bi in body and type(v) is Local and v.id in defs:
                    d = defs[v.id][0]
                    if d.op in ("add", "sub") and type(d.args[0]) is Local and d.args[0].id == phi.id and const(d.args[1]) is not None:
                        inc = d.id
            if inc is None:
                continue
            for ins, b in defs.values():
                if ins.op != "icmp":
                    continue
                t = b.instrs[-1]
                if t.op != "br" or all(x.idx in body for x in b.succs):
                    continue
                if not (t.args and type(t.args[0]) is Local and t.args[0].id == ins.id):
                    continue
                a, c = ins.args[0], const(ins.args[1])
                if type(a) is Local and a.id in (phi.id, inc) and c is not None and c <= self.o.get("small", 16):
                    r.append((phi, c))
                    break
        self.smalltrips[(F.name, header.idx)] = r
        return r

    def force_cut(self, fr):
        return False

    def iterate(self, s, header, body):
        """one symbolic pass through the loop from the header, muted; s is positioned at the header before phis"""
        cx = LoopCtx()
        cx.depth, cx.header, cx.body, cx.back, cx.exits, cx.writes, cx.ended = len(s.frames), header, body, [], [], set(), 0
        cx.oidmark = s.counter.get("alloc", 0)
        outer = s.ctxs
        s.ctxs = list(outer) + [cx]
        self.do_phis(s, s.frames[-1])
        self.muted += 1
        try:
            p = self.explore_ctx([s])
        finally:
            self.muted -= 1
        cx.ended = p
        return cx, p

    def explore_ctx(self, work):
        work = list(work)
        ended = 0
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Undecided("time limit")
            try:
                out = self.run_state(st)
            except PathEnd as e:
                if e.why not in ("back-edge", "loop-exit", "infeasible"):
                    ended += 1
                continue
            for s in out:
                if s.frames:
                    work.append(s)
                else:
                    ended += 1
        return ended

    # ---------------------------------------------------------------- instructions
    def ret(self, st, v):
        fr = st.frames.pop()
        for o in fr.allocas:
            if o in st.mem:
                m = self.mw(st, o)
                m.alive = False
        # a return out of a loop under analysis is a loop exit
        exited = None
        while st.ctxs and st.ctxs[-1].depth > len(st.frames):
            exited = st.ctxs.pop()
        if fr.on_ret is not None:
            r = fr.on_ret(self, st, v)
        elif st.frames:
            c = st.frames[-1]
            if fr.dest is not None:
                c.vals[fr.dest] = v
            r = None
            if fr.normal is not None:
                r = self.jump(st, c, fr.normal)
        else:
            r = None
        if exited is not None:
            if r is not None:
                raise Undecided("return out of a loop into another loop header")
            exited.exits.append((st, False))
            raise PathEnd("loop-exit")
        return r

    def finish(self, st, ins, v):
        """deliver the result of the current (non-call-frame) instruction"""
        fr = st.frames[-1]
        if v is not None:
            fr.vals[ins.id] = v
        x = ins.x
        if ins.op == "invoke":
            return self.jump(st, fr, x[1])
        fr.ip += 1
        return None

    def step(self, st, fr, ins):
        op = ins.op
        V = fr.vals
        val = self.val
        A = ins.args
        if op == "br":
            if not A:
                return self.jump(st, fr, ins.x[0])
            c = val(st, fr, A[0])
            if isinstance(c, int):
                return self.jump(st, fr, ins.x[0] if c else ins.x[1])
            sides = self.split(st, c)
            if len(sides) == 2 and self.o["bounded"] is not None:
                self.count_sym(sides, ins)
            out = []
            for s, t in sides:
                try:
                    r = self.jump(s, s.frames[-1], ins.x[0] if t else ins.x[1])
                    if r is None:
                        out.append(s)
                    else:
                        out.extend(r)
                except PathEnd as e:
                    if e.why not in ("back-edge", "loop-exit"):
                        self.end_path(s, e.why)
            if len(sides) == 1 and len(out) == 1 and out[0] is st:
                return None
            return out
        if op == "ret":
            v = val(st, fr, A[0]) if A else None
            return self.ret(st, v)
        if op in ("call", "invoke"):
            return self.call(st, fr, ins)
        if op == "load":
            p = val(st, fr, A[0])
            p = p if isinstance(p, Ptr) else Ptr(None, p)
            if ins.x or (st.regions and ins.ty.kind in ("int", "ptr")):
                return self.atomic_load(st, fr, ins, p)
            o, off = self.resolve(st, p, ins.ty.store, "read")
            V[ins.id] = self.load_ty(st, o, off, ins.ty)
        elif op == "store":
            v = val(st, fr, A[0])
            p = val(st, fr, A[1])
            p = p if isinstance(p, Ptr) else Ptr(None, p)
            ty = A[0].ty
            if ins.x or (st.regions and ty.kind in ("int", "ptr")):
                return self.atomic_store(st, fr, ins, p, v, ty)
            o, off = self.resolve(st, p, ty.store, "write")
            self.store_ty(st, o, off, ty, v)
        elif op == "gep":
            V[ins.id] = self.gep(st, ins.x, [val(st, fr, a) for a in A], [a.ty for a in A])
        elif op == "alloca":
            cnt = val(st, fr, A[0])
            if not isinstance(cnt, int):
                raise Undecided("symbolic alloca")
            p = self.alloc(st, ins.x[0].size * cnt, "stack", "local in " + self.dem.get(fr.fn.name, "")[:60])
            fr.allocas.append(p.obj)
            V[ins.id] = p
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            if ins.ty.kind != "int":
                if ins.ty.kind == "vector":
                    a, b = val(st, fr, A[0]), val(st, fr, A[1])
                    V[ins.id] = [self.binop(st, op, x, y, ins.ty.elem.width, ins.x) for x, y in zip(a, b)]
                else:
                    raise Undecided(op + " on " + ins.ty.kind)
            else:
                V[ins.id] = self.binop(st, op, val(st, fr, A[0]), val(st, fr, A[1]), ins.ty.width, ins.x)
        elif op == "icmp":
            V[ins.id] = self.icmp(st, ins.x, val(st, fr, A[0]), val(st, fr, A[1]), A[0].ty)
        elif op == "select":
            V[ins.id] = self.ite(st, val(st, fr, A[0]), val(st, fr, A[1]), val(st, fr, A[2]), ins.ty)
        elif op == "trunc":
            V[ins.id] = self.trunc(st, val(st, fr, A[0]), A[0].ty.width, ins.ty.width)
        elif op == "zext":
            V[ins.id] = self.zext(st, val(st, fr, A[0]), A[0].ty.width, ins.ty.width)
        elif op == "sext":
            V[ins.id] = self.sext(st, val(st, fr, A[0]), A[0].ty.width, ins.ty.width)
        elif op == "ptrtoint":
            v = val(st, fr, A[0])
            if isinstance(v, Ptr) and v.obj is None:
                v = v.off
            if ins.ty.width < 64:
                v = self.trunc(st, v, 64, ins.ty.width)
            V[ins.id] = v
        elif op == "inttoptr":
            v = val(st, fr, A[0])
            if A[0].ty.width < 64:
                v = self.zext(st, v, A[0].ty.width, 64)
            V[ins.id] = v if isinstance(v, Ptr) else Ptr(None, v)
        elif op in ("bitcast", "addrspacecast", "freeze"):
            v = val(st, fr, A[0])
            if op == "bitcast" and ins.ty.kind != A[0].ty.kind:
                raise Undecided("bitcast between kinds")
            V[ins.id] = v
        elif op == "extractvalue":
            v = val(st, fr, A[0])
            for k in ins.x:
                v = v[k]
            V[ins.id] = v
        elif op == "insertvalue":
            def ins_at(agg, idx, v):
                agg = list(agg)
                agg[idx[0]] = v if len(idx) == 1 else ins_at(agg[idx[0]], idx[1:], v)
                return agg
            V[ins.id] = ins_at(val(st, fr, A[0]), ins.x, val(st, fr, A[1]))
        elif op == "switch":
            v = val(st, fr, A[0])
            cases, dflt = ins.x
            if isinstance(v, int):
                for k, b in cases:
                    if k == v:
                        return self.jump(st, fr, b)
                return self.jump(st, fr, dflt)
            w = A[0].ty.width
            for k, b in cases:
                sides = self.split(st, self.bv(v, w, st) == k)
                res = []
                cont = None
                for s, t in sides:
                    if t:
                        try:
                            r = self.jump(s, s.frames[-1], b)
                            res.extend([s] if r is None else r)
                        except PathEnd as e:
                            if e.why not in ("back-edge", "loop-exit"):
                                self.end_path(s, e.why)
                    else:
                        cont = s
                if cont is None:
                    return res
                if res or cont is not st or len(sides) == 2:
                    # re-execute the switch on the remaining state (constraint v != k recorded)
                    return res + [cont] if len(sides) == 2 else res
            return self.jump(st, fr, dflt)
        elif op == "cmpxchg":
            return self.cmpxchg(st, fr, ins)
        elif op == "atomicrmw":
            return self.atomicrmw(st, fr, ins)
        elif op == "fence":
            pass
        elif op == "unreachable":
            self.fail_ob(st, "unreachable code reached (undefined behaviour or a function that must not return)")
            raise PathEnd("unreachable")
        elif op == "landingpad":
            raise Undecided("landingpad")
        elif op == "resume":
            raise Undecided("resume")
        elif op == "extractelement":
            v, i = val(st, fr, A[0]), val(st, fr, A[1])
            if not isinstance(i, int):
                raise Undecided("symbolic vector index")
            V[ins.id] = v[i]
        elif op == "insertelement":
            v, i = list(val(st, fr, A[0])), val(st, fr, A[2])
            v[i] = val(st, fr, A[1])
            V[ins.id] = v
        elif op in ("fadd", "fsub", "fmul", "fdiv", "sitofp", "uitofp", "fpext", "fptrunc", "fneg"):
            V[ins.id] = ("fpbits", self.fresh(64 if ins.ty.kind == "double" else 32, "fp"))
            self.res.assumed.add("floating-point results are unconstrained")
        elif op == "fcmp":
            V[ins.id] = self.fresh(1, "fcmp")
            self.res.assumed.add("floating-point comparisons are unconstrained")
        elif op in ("fptoui", "fptosi"):
            V[ins.id] = self.fresh(ins.ty.width, "fptoi")
        else:
            raise Undecided("instruction " + op)
        fr.ip += 1
        return None

    # ---------------------------------------------------------------- atomics
    def region_of(self, st, p):
        if p.obj is None:
            if not st.regions:
                return None
            return None
        for r in st.regions:
            if r[0] == p.obj:
                # the hooks themselves access the memory as it is
                if any(f.fn.name in (x[3], x[4]) for f in st.frames for x in st.regions):
                    return None
                lo, n = r[1], r[2]
                if lo is None:
                    return r
                if isinstance(p.off, int) and isinstance(lo, int) and isinstance(n, int):
                    if lo <= p.off < lo + n:
                        return r
                    continue
                inr = z3.And(z3.UGE(self.bv(p.off, 64), self.bv(lo, 64)),
                             z3.ULT(self.bv(p.off, 64), self.bv(self.add64(lo, n), 64)))
                if self.sol.check(st.pc, [z3.Not(inr)])[0] == "unsat":
                    return r
                if self.sol.check(st.pc, [inr])[0] == "unsat":
                    continue
                raise Fork(inr)
        return None

    def atomic_load(self, st, fr, ins, p):
        r = self.region_of(st, p)
        if r is None:
            o, off = self.resolve(st, p, ins.ty.store, "read")
            fr.vals[ins.id] = self.load_ty(st, o, off, ins.ty)
            fr.ip += 1
            return None
        self.resolve(st, p, ins.ty.store, "read")
        w = ins.ty.width if ins.ty.kind == "int" else 64
        def done(e, s, v, ins=ins, w=w):
            f = s.frames[-1]
            v = e.trunc(s, v, 64, w)
            f.vals[ins.id] = v if ins.ty.kind == "int" else e.as_ptr(v)
            f.ip += 1
            return None
        self.push(st, r[3], [p, w // 8], on_ret=done)
        return None

    def atomic_store(self, st, fr, ins, p, v, ty):
        r = self.region_of(st, p)
        if r is None:
            o, off = self.resolve(st, p, ty.store, "write")
            self.store_ty(st, o, off, ty, v)
            fr.ip += 1
            return None
        self.resolve(st, p, ty.store, "write")
        w = ty.width if ty.kind == "int" else 64
        # the old value is needed for the guarantee; it is what a load would have returned
        def after_load(e, s, old, p=p, v=v, w=w, r=r):
            def done(e2, s2, _):
                s2.frames[-1].ip += 1
                return None
            e.push(s, r[4], [p, old, e.zext(s, v, w, 64) if w < 64 else v, 0], on_ret=done)
            return None
        self.push(st, r[3], [p, w // 8], on_ret=after_load)
        return None

    def cmpxchg(self, st, fr, ins):
        p, exp, new = [self.val(st, fr, a) for a in ins.args[:3]]
        p = p if isinstance(p, Ptr) else Ptr(None, p)
        ty = ins.args[1].ty
        w = ty.width if ty.kind == "int" else 64
        r = self.region_of(st, p)
        if r is None:
            o, off = self.resolve(st, p, ty.store, "atomic access")
            cur = self.load_ty(st, o, off, ty)
            eq = self.icmp(st, "eq", cur, exp, ty)
            outs = self.split(st, eq) if not isinstance(eq, int) else [(st, bool(eq))]
            for s2, t in outs:
                if t:
                    self.store_ty(s2, o, off, ty, new)
                f2 = s2.frames[-1]
                f2.vals[ins.id] = [cur, int(t)]
                f2.ip += 1
            return [s2 for s2, _ in outs] if len(outs) > 1 else None
        self.resolve(st, p, ty.store, "atomic access")
        def after_load(e, s, cur):
            cw = e.trunc(s, cur, 64, w)
            eq = e.icmp(s, "eq", cw, exp, ty)
            if isinstance(eq, int):
                return finish(e, s, cur, cw, eq)
            out = []
            for s2, t in e.split(s, eq):
                out.append(s2)
                finish(e, s2, cur, cw, int(t))
            return out
        def finish(e, s, cur, cw, eq):
            f = s.frames[-1]
            if not eq:
                f.vals[ins.id] = [cw, 0]
                f.ip += 1
                return None
            def done(e2, s2, _):
                f2 = s2.frames[-1]
                f2.vals[ins.id] = [cw, 1]
                f2.ip += 1
                return None
            e.push(s, r[4], [p, cur, e.zext(s, new, w, 64) if w < 64 else new, 1], on_ret=done)
            return None
        self.push(st, r[3], [p, w // 8], on_ret=after_load)
        return None

    def rmwop(self, st, op, cur, v, ty):
        w = ty.width
        if op == "xchg":
            return v
        if op in ("add", "sub", "and", "or", "xor"):
            return self.binop(st, op, cur, v, w, None)
        if op in ("umax", "umin", "max", "min"):
            p = {"umax": "ugt", "umin": "ult", "max": "sgt", "min": "slt"}[op]
            return self.ite(st, self.icmp(st, p, cur, v, ty), cur, v, ty)
        raise Undecided("atomicrmw " + str(op))

    def atomicrmw(self, st, fr, ins):
        p, v = [self.val(st, fr, a) for a in ins.args[:2]]
        p = p if isinstance(p, Ptr) else Ptr(None, p)
        ty = ins.args[1].ty
        w = ty.width if ty.kind == "int" else 64
        r = self.region_of(st, p)
        o, off = self.resolve(st, p, ty.store, "atomic access")
        if r is None:
            cur = self.load_ty(st, o, off, ty)
            self.store_ty(st, o, off, ty, self.rmwop(st, ins.x, cur, v, ty))
            fr.vals[ins.id] = cur
            fr.ip += 1
            return None
        def after_load(e, s, cur):
            cw = e.trunc(s, cur, 64, w)
            new = e.rmwop(s, ins.x, cw, v, ty)
            def done(e2, s2, _):
                f2 = s2.frames[-1]
                f2.vals[ins.id] = cw
                f2.ip += 1
                return None
            e.push(s, r[4], [p, cur, e.zext(s, new, w, 64) if w < 64 else new, 1], on_ret=done)
            return None
        self.push(st, r[3], [p, w // 8], on_ret=after_load)
        return None

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, ins):
        callee = ins.x[0]
        args = None
        if type(callee) is Local:
            p = fr.vals[callee.id]
        else:
            if callee.kind == "asm":
                raise Undecided("inline assembly")
            p = self.cval(st, callee)
        if not isinstance(p, Ptr) or p.obj is None or not p.obj.startswith("f:"):
            if isinstance(p, Ptr) and p.obj is None and isinstance(p.off, int):
                self.fail_ob(st, "memory-safety: call through a null or invalid function pointer")
                raise PathEnd("bad call")
            raise Undecided("indirect call through a symbolic pointer")
        name = p.obj[2:]
        args = [self.val(st, fr, a) for a in ins.args]
        return self.call_named(st, fr, ins, name, args)

    def call_named(self, st, fr, ins, name, args):
        rep = self.repl.get(name)
        if rep is not None and not any(f.fn.name == rep for f in st.frames):
            self.res.contracts.add(self.dem.get(name, name))
            st.replog.append(name)
            name = rep
        h = self.ext.get(name)
        if h is None and name.startswith("llvm."):
            h = self.intrinsic(name)
        if h is None:
            h = self.ext_match(name)
        if h is not None:
            v = h(self, st, fr, ins, args)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "PUSHED":
                return None
            return self.finish(st, ins, v)
        F = self.m.funcs.get(name)
        if F is None or F.decl:
            raise Undecided("call to unmodelled external function %s" % self.dem.get(name, name))
        fr2 = fr
        if ins.op == "invoke":
            self.push(st, name, args, dest=ins.id, normal=ins.x[1])
        else:
            fr.ip += 1
            self.push(st, name, args, dest=ins.id)
        return None

    def ext_match(self, name):
        d = self.demcache.get(name, 0)
        if d != 0:
            return d
        h = None
        F = self.m.funcs.get(name)
        if F is None or F.decl:
            dn = self.dem.get(name, name)
            for rx, hh in self.ext_rx:
                if rx.search(dn):
                    h = hh
                    break
        self.demcache[name] = h
        return h

    def intrinsic(self, name):
        import models
        return models.intrinsic(self, name)
