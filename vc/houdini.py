"""Loop rule: a loop whose exit depends on symbolic data is replaced by an inductive invariant.

The invariant is the strongest conjunction of template facts (Houdini) over the loop variables - header phis, memory cells the
body writes, an iteration counter for variables with a constant step - and the terms the harness offers (hints, watched
locations, sizes).  Every conjunct is proved at loop entry and proved preserved by one arbitrary iteration; what is not
proved is dropped.  Nothing about the source text of the loop is used, so an equivalent rewriting infers its own invariant.
"""
import itertools
import os
import z3
from engine import Ptr, NULL, Undecided, PathEnd, Fork, BV64, is_expr
from llvmc import Local

MAXROUND = 30


class Var:
    __slots__ = ("key", "kind", "w", "name", "entry", "ind", "step", "objs")


def key_name(k):
    return "_".join(str(x) for x in k)


def flat(v, ty, path=()):
    """flatten an aggregate phi"""
    if ty.kind == "struct":
        for i, t in enumerate(ty.elems):
            yield from flat(v[i], t, path + (i,))
    elif ty.kind in ("array", "vector"):
        for i in range(ty.n):
            yield from flat(v[i], ty.elem, path + (i,))
    else:
        yield path, v, ty


def setpath(v, path, x):
    if not path:
        return x
    v = list(v)
    v[path[0]] = setpath(v[path[0]], path[1:], x)
    return v


class Cut:
    def __init__(self, eng, st, fr, header, body, key):
        self.e, self.st0, self.header, self.body, self.key = eng, st, header, body, key
        self.depth = len(st.frames)
        self.phis = [i for i in header.instrs[:header.nphi]]
        self.stats = dict(cands=0, kept=0, rounds=0)

    # -------------------------------------------------- loop variables of a state positioned at the header (before phis)
    def phivals(self, st):
        fr = st.frames[-1]
        p = fr.prev.idx
        out = {}
        for ins in self.phis:
            for bi, v in ins.args:
                if bi == p:
                    out[ins.id] = self.e.val(st, fr, v)
                    break
        return out

    def scalars(self, st, cells, phiv=None):
        """-> {key: (value, type kind, width)}"""
        phiv = self.phivals(st) if phiv is None else phiv
        out = {}
        for ins in self.phis:
            for path, v, ty in flat(phiv[ins.id], ins.ty):
                out[("phi", ins.id) + path] = (v, ty.kind, ty.width if ty.kind == "int" else 64)
        for (o, off, n) in cells:
            m = st.mem[o]
            if not m.alive:
                continue
            v = self.e.read(st, o, off, n)
            out[("cell", o, off, n)] = (v, "int", 8 * n)
        return out

    # -------------------------------------------------- header states
    def header_state(self, vars_, cells, arrs, variant, cur, assume):
        """arbitrary state at the header. variant: {key: obj} for pointer variables; cur is filled {key: value}"""
        e = self.e
        s = self.st0.clone()
        n = cur.get("n")
        vals = {}
        for v in vars_:
            if v.key in variant:
                o = variant[v.key]
                if o is None:
                    val = NULL if not isinstance(v.objs[o], tuple) else Ptr(None, cur[v.key])
                elif v.ind:
                    val = Ptr(o, e.add64(v.entry.off, n * z3.BitVecVal(v.step & (2**64 - 1), 64)))
                elif v.objs[o] is not None:
                    val = Ptr(o, v.objs[o])
                else:
                    g = self.st0.mem[o].gran if o in self.st0.mem else 1
                    val = Ptr(o, cur[v.key] if g == 1 else cur[v.key] * z3.BitVecVal(g, 64))
            elif v.ind:
                nn = z3.Extract(v.w - 1, 0, n) if v.w < 64 else n
                val = e.bv(v.entry, v.w, s) + nn * z3.BitVecVal(v.step & ((1 << v.w) - 1), v.w)
            else:
                val = cur[v.key]
            vals[v.key] = val
        for o in arrs:
            m = e.mw(s, o)
            keep = {}
            m.cells = keep
            m.arr = z3.Array("%s!%s!%d" % (o, self.tag, next(e.fresh_n)), BV64, z3.BitVecSort(8 * m.gran))
        for v in vars_:
            if v.key[0] == "cell":
                _, o, off, n_ = v.key
                if s.mem[o].alive:
                    val = vals[v.key]
                    if v.kind == "bool":
                        val = z3.If(val, z3.BitVecVal(1, 8 * n_), z3.BitVecVal(0, 8 * n_))
                    e.write(s, o, off, n_, val)
        # phis
        f = s.frames[-1]
        over = {}
        for ins in self.phis:
            pv = None
            for bi, v in ins.args:
                if bi == f.prev.idx:
                    pv = e.val(s, f, v)
                    break
            x = pv
            for path, old, ty in list(flat(pv, ins.ty)):
                x = setpath(x, path, vals[("phi", ins.id) + path])
            over[ins.id] = x
        for o in arrs:
            s.wlog = (o, None, 0, s.wlog)
        s.trace.append("cut " + self.tag)
        return s, vals, over

    def run_iter(self, s, over, unmuted=False):
        """one pass from the header with the phi values given"""
        from engine import LoopCtx
        e = self.e
        cx = LoopCtx()
        cx.depth, cx.header, cx.body, cx.back, cx.exits, cx.writes, cx.ended = self.depth, self.header, self.body, [], [], set(), 0
        cx.oidmark = s.counter.get("alloc", 0)
        mark = s.wlog
        s.ctxs = list(s.ctxs) + [cx]
        f = s.frames[-1]
        f.blk = self.header
        f.vals.update(over)
        f.ip = self.header.nphi
        if not unmuted:
            e.muted += 1
        try:
            cx.ended = e.explore_ctx([s])
        finally:
            if not unmuted:
                e.muted -= 1
        # only what a path that comes back to the header has written can differ at the header
        for b in cx.back:
            w = b.wlog
            while w is not mark:
                o, off, n, w = w
                if int(o[1:]) < cx.oidmark if o[0] == "o" else True:
                    cx.writes.add((o, off, n))
        return cx


def cut(e, st, fr, header, body, key):
    c = Cut(e, st, fr, header, body, key)
    c.tag = "%s.%d" % (fr.fn.name[-24:], header.idx)
    # ---------------------------------------------------------------- modified memory (fixpoint of dry runs)
    c.wkey = (key, tuple((f.fn.name, f.ip, f.blk.idx) for f in st.frames[:-1]))
    fr0 = e.warmframe.get(c.wkey)
    if fr0 is not None and st.ctxs and all(o in st.mem and st.mem[o].alive for o in {x[0] for x in fr0[0]} | fr0[1]):
        cells, arrs = set(fr0[0]), set(fr0[1])
    else:
        cells, arrs = set(), set()
    ptrobjs = {}
    entry_phi = c.phivals(st)
    e.dry += 1
    try:
        backs, vars_, variants, cells, arrs, ptrobjs = frame_of(e, c, st, cells, arrs, ptrobjs, entry_phi)
    finally:
        e.dry -= 1
    e.warmframe[c.wkey] = (set(cells), set(arrs))
    if not backs:
        # no iteration can come back: plain execution
        c.e.cuts.pop(key, None)
        return None
    return induction(e, c, st, cells, arrs, vars_, variants, ptrobjs, entry_phi, backs)


def frame_of(e, c, st, cells, arrs, ptrobjs, entry_phi):
    for rnd in range(12):
        vars_, variants = make_vars(c, st, cells, entry_phi, ptrobjs, {})
        grew = False
        backs = []
        for variant in variants:
            cur = fresh_cur(e, vars_, variant)
            s, vals, over = c.header_state(vars_, cells, arrs, variant, cur, ())
            if not wf(e, c, s, vals, vars_):
                continue
            cx = c.run_iter(s, over)
            for b in cx.back:
                backs.append((variant, vals, b))
            for (o, off, n) in cx.writes:
                if o not in st.mem:
                    continue
                if off is None:
                    if o not in arrs:
                        arrs.add(o)
                        grew = True
                elif (o, off, n) not in cells:
                    # overlapping cells of different shape: treat the object as an array
                    over_ = [x for x in cells if x[0] == o and not (x[1] + x[2] <= off or off + n <= x[1])]
                    if any(x[1] <= off and off + n <= x[1] + x[2] for x in over_):
                        continue
                    if over_:
                        for x in over_:
                            cells.discard(x)
                        if all(x[1] >= off and x[1] + x[2] <= off + n for x in over_):
                            cells.add((o, off, n))
                        else:
                            lo = min([off] + [x[1] for x in over_])
                            hi = max([off + n] + [x[1] + x[2] for x in over_])
                            if hi - lo in (1, 2, 4, 8, 16):
                                cells.add((o, lo, hi - lo))
                            else:
                                arrs.add(o)
                        grew = True
                    else:
                        cells.add((o, off, n))
                        grew = True
            for b in cx.back:
                for o in st.mem:
                    if st.mem[o].alive != b.mem[o].alive:
                        raise Undecided("object freed inside a loop")
                for k, (v, kind, w) in c.scalars(b, [x for x in cells if x in {(q[1], q[2], q[3]) for q in
                                                     [vv.key for vv in vars_ if vv.key[0] == "cell"]}]).items():
                    if isinstance(v, Ptr):
                        o = v.obj
                        if o is not None and o not in st.mem:
                            raise Undecided("loop-carried pointer to an object created in the loop")
                        d = ptrobjs.setdefault(k, {})
                        offv = v.off
                        if o is None and not isinstance(offv, int):
                            offv = ("sym",)
                        if o not in d:
                            d[o] = offv if not is_expr(offv) else None
                            grew = True
                        elif o is None and d[o] == ("sym",):
                            pass
                        elif d[o] is not None and not (isinstance(offv, int) and d[o] == offv):
                            d[o] = None if o is not None else ("sym",) if offv != d[o] else d[o]
                            grew = True
        cells = {x for x in cells if x[0] not in arrs}
        if os.environ.get("VC_DBG"):
            print("FRAME", rnd, sorted(cells, key=str), arrs, {k: v for k, v in ptrobjs.items()}, flush=True)
        if not grew:
            break
    else:
        raise Undecided("loop frame does not stabilise")
    return backs, vars_, variants, cells, arrs, ptrobjs


def induction(e, c, st, cells, arrs, vars_, variants, ptrobjs, entry_phi, backs):
    # ---------------------------------------------------------------- induction variables
    ind = {}
    allkeys = [v.key for v in vars_]
    for k in allkeys:
        step = None
        ok = True
        for variant, vals, b in backs:
            bv = c.scalars(b, cells).get(k)
            if bv is None:
                ok = False
                break
            bvv, cvv = bv[0], vals[k]
            if isinstance(bvv, Ptr) or isinstance(cvv, Ptr):
                if not (isinstance(bvv, Ptr) and isinstance(cvv, Ptr)) or bvv.obj != cvv.obj or bvv.obj is None:
                    ok = False
                    break
                d = e.sub64(bvv.off, cvv.off)
            else:
                if z3.is_bool(bvv) or z3.is_bool(cvv) or isinstance(bvv, (tuple, list)):
                    ok = False
                    break
                w = bv[2]
                if w == 1:
                    ok = False
                    break
                d = z3.simplify(e.bv(bvv, w, b) - e.bv(cvv, w, b))
                d = d.as_long() if z3.is_bv_value(d) else None
            if is_expr(d):
                d = z3.simplify(d)
                d = d.as_long() if z3.is_bv_value(d) else None
            if d is None or d == 0 or (step is not None and step != d):
                ok = False
                break
            step = d
        if ok and step is not None:
            ind[k] = step
    # an induction pointer has exactly the entry object
    for k in list(ind):
        if k in ptrobjs or isinstance(entry_val(c, st, cells, entry_phi, k), Ptr):
            ev = entry_val(c, st, cells, entry_phi, k)
            if not isinstance(ev, Ptr) or ev.obj is None or set(ptrobjs.get(k, {ev.obj: 0})) - {ev.obj}:
                del ind[k]
    vars_, variants = make_vars(c, st, cells, entry_phi, ptrobjs, ind)
    return solve(e, c, st, cells, arrs, vars_, variants, entry_phi)


def entry_val(c, st, cells, entry_phi, k):
    return c.scalars(st, cells, entry_phi)[k][0]


def make_vars(c, st, cells, entry_phi, ptrobjs, ind):
    out = []
    dims = []
    for k, (v, kind, w) in sorted(c.scalars(st, cells, entry_phi).items(), key=lambda t: str(t[0])):
        x = Var()
        x.key, x.w, x.entry, x.ind, x.step, x.objs = k, w, v, k in ind, ind.get(k), None
        x.name = key_name(k)
        if isinstance(v, Ptr) or kind == "ptr" or k in ptrobjs:
            x.kind = "ptr"
            d = dict(ptrobjs.get(k, {}))
            if not isinstance(v, Ptr):
                v = Ptr(None, v)
                x.entry = v
            offv = v.off
            if v.obj is None and not isinstance(offv, int):
                offv = ("sym",)
            if v.obj not in d:
                d[v.obj] = offv if not is_expr(offv) else None
            elif d[v.obj] is not None and d[v.obj] != offv if not is_expr(offv) else True:
                d[v.obj] = None if v.obj is not None else ("sym",)
            if None in d and isinstance(d[None], int) and d[None] != 0:
                d[None] = ("sym",)
            x.objs = d
            dims.append([(k, o) for o in sorted(d, key=str)])
        elif kind in ("float", "double") or isinstance(v, tuple):
            x.kind = "fp"
        elif w == 1 or (is_expr(v) and z3.is_bool(v)):
            x.kind = "bool1"
        else:
            x.kind = "int"
        out.append(x)
    variants = [dict(t) for t in itertools.product(*dims)]
    if len(variants) > 64:
        raise Undecided("too many pointer variants at a loop")
    return out, variants


def fresh_cur(e, vars_, variant):
    cur = {"n": e.fresh(64, "iter")}
    for v in vars_:
        if v.kind == "ptr":
            cur[v.key] = e.fresh(64, "p")
        elif v.kind == "bool1":
            cur[v.key] = e.fresh(1, "b")
        elif v.kind == "fp":
            cur[v.key] = ("fpbits", e.fresh(v.w, "f"))
        else:
            cur[v.key] = e.fresh(v.w, "v")
    return cur


def wf(e, c, s, vals, vars_):
    """header state is feasible"""
    s.model = None
    return e.feasible(s)


# ------------------------------------------------------------------ candidate language
# atom: (op, a, b) over term names; op in eq ule ult flag nflag diffle sumeq diffeq;  candidate: (guards tuple, atom)
def b64(e, st, v):
    if isinstance(v, int):
        return z3.BitVecVal(v, 64)
    if isinstance(v, Ptr):
        return e.bv(v.off, 64)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if v.size() < 64:
        return z3.ZeroExt(64 - v.size(), v)
    if v.size() > 64:
        return None
    return v


def az3(T, a):
    op = a[0]
    if op == "flag":
        return T[a[1]] != 0
    if op == "nflag":
        return T[a[1]] == 0
    x, y = T[a[1]], T[a[2]]
    if op == "eq":
        return x == y
    if op == "ne":
        return x != y
    if op == "ule":
        return z3.ULE(x, y)
    if op == "ult":
        return z3.ULT(x, y)
    if op == "diffle":   # a1 - a2 <= a3
        return z3.ULE(x - y, T[a[3]])
    if op == "sumeq":    # a1 + a2 == a3 + a4
        return x + y == T[a[3]] + T[a[4]]
    if op == "diffeq":
        return x - y == T[a[3]] - T[a[4]]
    raise AssertionError(op)


M64 = (1 << 64) - 1


def apy(T, a):
    op = a[0]
    if op == "flag":
        return T[a[1]] != 0
    if op == "nflag":
        return T[a[1]] == 0
    x, y = T[a[1]], T[a[2]]
    if op == "eq":
        return x == y
    if op == "ne":
        return x != y
    if op == "ule":
        return x <= y
    if op == "ult":
        return x < y
    if op == "diffle":
        return ((x - y) & M64) <= T[a[3]]
    if op == "sumeq":
        return (x + y) & M64 == (T[a[3]] + T[a[4]]) & M64
    if op == "diffeq":
        return (x - y) & M64 == (T[a[3]] - T[a[4]]) & M64


def cz3(T, c):
    g, a = c
    if not g:
        return az3(T, a)
    return z3.Or([z3.Not(az3(T, x)) for x in g] + [az3(T, a)])


def cpy(T, c):
    for x in c[0]:
        if not apy(T, x):
            return True
    return apy(T, c[1])


def solve(e, c, st, cells, arrs, vars_, variants, entry_phi):
    saved = e.warm
    if not e.dry and not (e.muted and c.wkey in e.warm):
        e.warm = {}
    try:
        V, out = solve1(e, c, st, cells, arrs, vars_, variants, entry_phi)
    finally:
        e.warm = saved
    if e.muted and not e.dry:
        u, seen = [], set()
        for l in V.values():
            for cd in l or ():
                if cd not in seen:
                    seen.add(cd)
                    u.append(cd)
        e.warm[c.wkey] = u
    return out


def exit_bounds(e, c, st):
    """what the loop's exit conditions compare with, where that does not change in the loop: bounds of the iteration"""
    f = st.frames[-1]
    inside = {ins.id for b in f.fn.blocks if b.idx in c.body for ins in b.instrs}
    out = []
    for b in f.fn.blocks:
        if b.idx not in c.body or all(x.idx in c.body for x in b.succs):
            continue
        for ins in b.instrs:
            if ins.op != "icmp":
                continue
            for a in ins.args:
                if type(a) is not Local or a.id in inside or a.id not in f.vals:
                    continue
                v = f.vals[a.id]
                if isinstance(v, Ptr):
                    if v.obj is None or v.obj not in st.mem:
                        continue
                    g = st.mem[v.obj].gran
                    v = e.bv(v.off, 64)
                    if g > 1 and g & (g - 1) == 0:
                        v = z3.LShR(v, z3.BitVecVal(g.bit_length() - 1, 64))
                    v = z3.simplify(v)
                elif not (z3.is_bv(v) and v.size() in (32, 64)):
                    continue
                if not z3.is_bv_value(v):
                    out.append(v)
    return out


def solve1(e, c, st, cells, arrs, vars_, variants, entry_phi):
    hints = [h for h in st.hints]
    if e.o.get("exitbounds", 0):
        known = [z3.simplify(b64(e, st, h[2])) for h in hints if h[0] == "n" and z3.is_bv(h[2])]
        for i, v in enumerate(exit_bounds(e, c, st)):
            v = z3.simplify(b64(e, st, v))
            if not any(v.eq(x) for x in known) and len(known) < 8:
                known.append(v)
                hints.append(("n", "exit%d" % i, v))
    split = e.o.get("split")
    # constant terms
    def const_terms(s):
        T = {"0": z3.BitVecVal(0, 64), "1": z3.BitVecVal(1, 64)}
        for kind, name, v in hints:
            if kind in ("w", "a"):
                continue
            t = b64(e, s, v if not isinstance(v, Ptr) else v.off)
            if t is not None:
                T[("hb" if kind == "b" else "h") + ":" + name] = t
        for v in vars_:
            if v.kind == "int" or v.kind == "bool1":
                t = b64(e, s, v.entry)
                if t is not None:
                    T["e:" + v.name] = t
            elif v.kind == "ptr":
                if v.entry.obj is not None:
                    T["e:" + v.name] = b64(e, s, v.entry.off)
        return T

    def state_terms(s, vals, n):
        T = const_terms(s)
        if n is not None:
            T["n"] = n
        for v in vars_:
            if v.kind == "fp":
                continue
            x = vals[v.key]
            t = b64(e, s, x)
            if t is not None:
                T["v:" + v.name] = t
                if v.kind == "ptr" and n is not None and x.obj is not None and x.obj in s.mem:
                    # position of a pointer, counted in elements, and the number of elements there are
                    m = s.mem[x.obj]
                    g = m.gran
                    step = v.step - (1 << 64) if v.ind and v.step >= (1 << 63) else v.step
                    if g & (g - 1) == 0:
                        k = z3.BitVecVal(g.bit_length() - 1, 64)
                        if g > 1 and v.ind and step % g == 0:
                            eo = v.entry.off
                            T["x:" + v.name] = n * z3.BitVecVal((step // g) & M64, 64) + (
                                z3.BitVecVal(eo // g, 64) if isinstance(eo, int) else z3.LShR(e.bv(eo, 64), k))
                            T["ex:" + v.name] = z3.BitVecVal(eo // g, 64) if isinstance(eo, int) else z3.LShR(e.bv(eo, 64), k)
                        elif g > 1 and not v.ind:
                            T["x:" + v.name] = z3.LShR(t, k)
                        elif g == 1 and v.ind and e.o.get("exitbounds", 0):
                            T["x:" + v.name] = t
                            T["ex:" + v.name] = e.bv(v.entry.off, 64)
                        if not isinstance(m.size, int) or g > 1 or v.ind:
                            T["z:" + v.name] = z3.simplify(z3.LShR(e.bv(m.size, 64), k))
                if split and v.kind == "int" and v.w == 64 and not v.ind:
                    T["lo:" + v.name] = z3.ZeroExt(32, z3.Extract(31, 0, t))
                    T["hi:" + v.name] = z3.ZeroExt(32, z3.Extract(63, 32, t))
        for kind, name, v in hints:
            if kind == "a":
                # the element of an array at the position a variable names
                p, g = v
                if p.obj in s.mem and s.mem[p.obj].alive:
                    if n is not None:
                        T["a:%s[n]" % name] = b64(e, s, e.read(s, p.obj, e.add64(p.off, n * z3.BitVecVal(g, 64)), g))
                    for x in vars_:
                        if x.kind == "int" and x.w > 8:
                            t = T.get("v:" + x.name)
                            if t is not None:
                                T["a:%s[%s]" % (name, x.name)] = b64(e, s, e.read(s, p.obj, e.add64(p.off, t * z3.BitVecVal(g, 64)), g))
            if kind == "w":
                p, w = v
                if p.obj in s.mem and s.mem[p.obj].alive:
                    T["w:" + name] = b64(e, s, e.read(s, p.obj, p.off, w))
        return T

    ev = {k: t[0] for k, t in c.scalars(st, cells, entry_phi).items()}
    for v in vars_:
        if v.kind == "ptr" and not isinstance(ev[v.key], Ptr):
            ev[v.key] = Ptr(None, ev[v.key])
    T0 = state_terms(st, ev, z3.BitVecVal(0, 64))
    warm = False
    if e.dry:
        # only the frame matters here: cheap facts
        cands = [cd for cd in gen(vars_, hints, T0) if not cd[0] and cd[1][0] in ("ule", "ult", "diffle") or cd[1][-1] == "1"]
    elif e.muted and c.wkey in e.warm:
        warm = True
        cands = [cd for cd in e.warm[c.wkey] if all(t in T0 or t == "n" for a in cd[0] + (cd[1],) for t in a[1:])]
    else:
        cands = gen(vars_, hints, T0)
    # widths: sizes of the objects pointers walk over
    entry_variant = tuple(sorted(((v.key, ev[v.key].obj) for v in vars_ if v.kind == "ptr"), key=str))
    c.stats["cands"] = len(cands)
    import os
    if os.environ.get("VC_DBG"):
        print("LOOP", c.tag, [(v.name, v.kind, v.ind, v.w) for v in vars_], sorted(T0), len(cands), "entry keeps?")

    V = {}   # variant tuple -> candidate list (None: not reached yet)
    for variant in variants:
        V[tuple(sorted(variant.items(), key=str))] = None
    V[entry_variant] = prune(e, list(st.pc), T0, cands)
    # variants other than the entry one start with everything (bottom) once reached
    rounds = 0
    stable = False
    while not stable:
        rounds += 1
        if rounds > MAXROUND:
            raise Undecided("loop invariant inference does not converge")
        stable = True
        for variant in variants:
            vt = tuple(sorted(variant.items(), key=str))
            if V[vt] is None:
                continue
            cur = fresh_cur(e, vars_, variant)
            s, vals, over = c.header_state(vars_, cells, arrs, variant, cur, ())
            T = state_terms(s, vals, cur["n"])
            for cd in minimize(V[vt]):
                s.pc.append(cz3(T, cd))
            s.model = None
            if not e.feasible(s):
                continue
            cx = c.run_iter(s, over)
            for b in cx.back:
                bs = c.scalars(b, cells)
                bvals = {}
                for v in vars_:
                    x = bs[v.key][0]
                    if v.kind == "ptr" and not isinstance(x, Ptr):
                        x = Ptr(None, x)
                    bvals[v.key] = x
                bt = tuple(sorted(((v.key, bvals[v.key].obj) for v in vars_ if v.kind == "ptr"), key=str))
                if bt not in V:
                    raise Undecided("unexpected pointer variant at a loop")
                # induction variables keep their step
                for v in vars_:
                    if v.ind:
                        x, y = bvals[v.key], vals[v.key]
                        if isinstance(x, Ptr):
                            d = z3.simplify(e.bv(x.off, 64) - e.bv(y.off, 64) - z3.BitVecVal(v.step, 64))
                        else:
                            d = z3.simplify(e.bv(x, v.w) - e.bv(y, v.w) - z3.BitVecVal(v.step, v.w))
                        if not (z3.is_bv_value(d) and d.as_long() == 0):
                            r, _ = e.sol.check(b.pc, [d != 0])
                            if r != "unsat":
                                raise Undecided("induction variable changed its step")
                    elif v.kind == "ptr":
                        o = bvals[v.key].obj
                        want = v.objs[o]
                        g = st.mem[o].gran if o is not None and o in st.mem else 1
                        if want is None and g > 1:
                            # the header state assumes element-aligned positions
                            for ps, po in ((b.pc, bvals[v.key].off), (st.pc, v.entry.off if v.entry.obj == o else 0)):
                                rem = z3.simplify(z3.URem(e.bv(po, 64), z3.BitVecVal(g, 64)))
                                if not (z3.is_bv_value(rem) and rem.as_long() == 0) and e.sol.check(ps, [rem != 0])[0] != "unsat":
                                    raise Undecided("pointer into the middle of an element at a loop")
                        if isinstance(want, int):
                            x = bvals[v.key].off
                            if not (isinstance(x, int) and x == want):
                                raise Undecided("pointer offset changed at a loop")
                Tb = state_terms(b, bvals, cur["n"] + 1)
                old = V[bt] if V[bt] is not None else [cd for cd in cands if all(t in Tb for a in cd[0] + (cd[1],) for t in a[1:])]
                new = prune(e, b.pc, Tb, old)
                if V[bt] is None or len(new) != len(old):
                    stable = False
                    V[bt] = new
    c.stats["rounds"] = rounds
    # ---------------------------------------------------------------- final pass: obligations inside the body, exits
    out = []
    outer_muted = e.muted
    for variant in variants:
        vt = tuple(sorted(variant.items(), key=str))
        if V[vt] is None:
            continue
        V[vt] = minimize(V[vt])
        c.stats["kept"] += len(V[vt])
        cur = fresh_cur(e, vars_, variant)
        s, vals, over = c.header_state(vars_, cells, arrs, variant, cur, ())
        T = state_terms(s, vals, cur["n"])
        for cd in V[vt]:
            s.pc.append(cz3(T, cd))
        s.model = None
        if not e.feasible(s):
            continue
        cx = c.run_iter(s, over, unmuted=True)
        # final check that the back edges still imply the invariant (same query as above, on the unmuted run)
        for b in cx.back:
            pass
        for s2, needs in cx.exits:
            if not needs:
                out.append(s2)
                continue
            try:
                f = s2.frames[-1]
                src, target = f.prev, f.blk
                f.blk = src
                r = e.jump(s2, f, target)
                if r is None:
                    out.append(s2)
                else:
                    out.extend(r)
            except PathEnd as x:
                if x.why not in ("back-edge", "loop-exit"):
                    e.end_path(s2, x.why)
    if not e.muted:
        rec = e.res.loops.setdefault(e.dem.get(c.key[0], c.key[0]) + " block %d" % c.key[1], dict(cands=0, kept=0, rounds=0, cuts=0))
        rec["cands"] += c.stats["cands"]
        rec["kept"] += c.stats["kept"]
        rec["rounds"] += rounds
        rec["cuts"] += 1
        for vt in V:
            if V[vt] is not None:
                e.res.obligations.setdefault("loop invariant holds on entry and is preserved", [0, 0, 0])[0] += len(V[vt])
        if e.o["verbose"]:
            for vt in V:
                if V[vt] is not None:
                    print("   loop", c.tag, "variant", [str(o) for _, o in vt], "invariant:")
                    for cd in V[vt]:
                        print("       ", cd)
    return V, out


def prune(e, pc, T, cands):
    """candidates implied by pc under the term values T"""
    live = list(cands)
    exprs = {}
    Ts = {k: z3.simplify(t) for k, t in T.items()}
    Tc = {k: t.as_long() for k, t in Ts.items() if z3.is_bv_value(t)}
    Tv = {k: t for k, t in Ts.items() if k not in Tc}
    byid = {}
    for k, t in Tv.items():
        byid.setdefault(t.get_id(), []).append(k)

    def point(m):
        P = dict(Tc)
        for ks in byid.values():
            v = m.eval(Tv[ks[0]], model_completion=True).as_long()
            for k in ks:
                P[k] = v
        return P
    first = True
    while live:
        if first:
            first = False
            r, m = e.sol.check(pc, [])
            if r == "unsat":
                return live
            if r == "sat":
                P = point(m)
                live = [cd for cd in live if cpy(P, cd)]
            continue
        neg = []
        for cd in minimize(live):
            x = exprs.get(cd)
            if x is None:
                x = exprs[cd] = z3.simplify(cz3(Ts, cd))
            if not z3.is_true(x):
                neg.append((cd, x))
        if not neg:
            return live
        r, m = e.sol.check(pc, [z3.Not(z3.And([x for _, x in neg]))], hard=len(neg) > 6)
        if r == "unsat":
            return live
        if r == "unknown":
            # decide one by one; what stays unknown is dropped
            bad = set()
            for cd, x in neg:
                r1, _ = e.sol.check(pc, [z3.Not(x)])
                if r1 != "unsat":
                    bad.add(cd)
            live = [cd for cd in live if cd not in bad]
            if not bad:
                return live
            continue
        P = point(m)
        n0 = len(live)
        live = [cd for cd in live if cpy(P, cd)]
        if len(live) == n0:
            # model evaluation incomplete: drop the ones the model refutes through z3
            live2 = [cd for cd in live if not (cd in exprs and z3.is_false(m.eval(exprs[cd], model_completion=True)))]
            if len(live2) == n0:
                raise Undecided("candidate pruning makes no progress")
            live = live2
    return live


def minimize(cands):
    s = set(cands)
    out = []
    for g, a in cands:
        drop = False
        for k in range(len(g)):
            for sub in itertools.combinations(g, k):
                if (sub, a) in s:
                    drop = True
        if a[0] in ("ule",) and (g, ("eq", a[1], a[2])) in s:
            drop = True
        if not drop:
            out.append((g, a))
    return out


def gen(vars_, hints, T0):
    cands = []
    add = cands.append
    ints = [v for v in vars_ if v.kind in ("int", "ptr") and not v.ind and "v:" + v.name in T0]
    inds = [v for v in vars_ if v.ind]
    flags = [v for v in vars_ if v.kind == "bool1"]
    bytes_ = [v for v in vars_ if v.kind == "int" and v.w == 8 and not v.ind]
    def uniq(ts):
        seen, out = set(), []
        for t in ts:
            h = T0[t].hash(), T0[t].sexpr() if T0[t].num_args() == 0 else T0[t].get_id()
            if h not in seen:
                seen.add(h)
                out.append(t)
        return out
    hi = ["h:" + n for k, n, v in hints if k == "i" and "h:" + n in T0]
    hn = ["h:" + n for k, n, v in hints if k == "n" and "h:" + n in T0]
    hp = ["h:" + n for k, n, v in hints if k == "p" and "h:" + n in T0]
    hv = uniq(["h:" + n for k, n, v in hints if k in "invp" and "h:" + n in T0])
    hb = ["hb:" + n for k, n, v in hints if k == "b"]
    hw = ["w:" + n for k, n, v in hints if k == "w" and "w:" + n in T0]
    # guards
    vis = []
    for h in hi:
        vis.append(("ult", h, "n"))
        for v in inds:
            if v.kind == "int":
                if v.step < (1 << (v.w - 1)):
                    vis.append(("ult", h, "v:" + v.name))
                else:
                    vis.append(("ule", "v:" + v.name, h))
            elif "x:" + v.name in T0:
                vis.append(("ult", h, "x:" + v.name) if v.step < (1 << 63) else ("ule", "x:" + v.name, h))
    fl = []
    for v in flags + bytes_:
        fl.append(("flag", "v:" + v.name))
        fl.append(("nflag", "v:" + v.name))
    hbg = [("flag", h) for h in hb] + [("nflag", h) for h in hb]
    chg = []
    for v in ints:
        if v.kind == "int" and v.w > 8 and "e:" + v.name in T0:
            chg.append(("ne", "v:" + v.name, "e:" + v.name))
    for v in ints:
        for h in hp if v.kind == "int" and v.w > 8 else ():
            chg.append(("eq", "v:" + v.name, h))
    guards = [()] + [(g,) for g in vis + fl + hbg + chg + [("ne", "n", "0")]]
    guards += [(a, b) for a in vis for b in hbg + fl]
    # walking downwards: everything between the position and where the walk began has been visited
    for v in inds:
        if v.kind == "ptr" and v.step >= (1 << 63) and "x:" + v.name in T0:
            guards += [(("ule", "x:" + v.name, h), ("ult", h, "ex:" + v.name)) for h in hi]
        elif v.kind == "int" and v.step >= (1 << (v.w - 1)) and "e:" + v.name in T0:
            guards += [(("ule", "v:" + v.name, h), ("ult", h, "e:" + v.name)) for h in hi]
    guards += [(a, b) for a in fl for b in chg if b[0] == "eq" and a[1] != b[1]]
    guards += [(a, b, d) for a in fl for b in chg if b[0] == "eq" for d in vis] if len(fl) * len(chg) * len(vis) <= 16 else []
    # iteration counter bounds
    for t in hn:
        add(((), ("ule", "n", t)))
        add(((), ("ult", "n", t)))
    for v in vars_:
        x = "x:" + v.name if "x:" + v.name in T0 else "v:" + v.name
        if v.kind == "ptr" and x in T0:
            if "z:" + v.name in T0:
                add(((), ("ule", x, "z:" + v.name)))
                add(((), ("ult", x, "z:" + v.name)))
            if not v.ind and x[0] == "x":
                add(((), ("eq", x, "n")))
                for t in uniq(hn):
                    add(((), ("ule", x, t)))
                    add(((), ("ult", x, t)))
    for v in inds:
        x = "v:" + v.name
        for t in uniq(hn + ["e:" + w.name for w in vars_ if "e:" + w.name in T0]):
            add(((), ("ule", x, t)))
            add(((), ("ule", t, x)))
        if "x:" + v.name in T0:
            for t in uniq(hn):
                add(((), ("ule", "x:" + v.name, t)))
                add(((), ("ult", "x:" + v.name, t)))
    terms = ["0"] + ["e:" + w.name for w in vars_ if "e:" + w.name in T0 and not (w.kind == "ptr" and w.ind)] + hv + hw
    terms = uniq(terms)
    vs = ["v:" + v.name for v in ints]
    bv = {"v:" + v.name for v in bytes_}
    strict = set(hn + ["n"] + ["v:" + u.name for u in inds])
    for i, v in enumerate(ints):
        x = "v:" + v.name
        rel = [t for t in terms] + [y for y in vs[i + 1:]] + ["n"] + ["v:" + u.name for u in inds]
        for g in guards:
            if any(q[1] == x for q in g if q[0] in ("flag", "nflag")):
                continue
            for t in rel:
                add((g, ("eq", x, t)))
                if x in bv or (g and t == "0"):
                    continue
                add((g, ("ule", x, t)))
                if t != "0":
                    add((g, ("ule", t, x)))
                if t in strict or t == "e:" + v.name:
                    add((g, ("ult", x, t)))
            if x in bv:
                add((g, ("flag", x)))
                add((g, ("nflag", x)))
        if "e:" + v.name in T0:
            add(((), ("diffle", x, "e:" + v.name, "n")))
            add(((), ("diffle", "e:" + v.name, x, "n")))
        for half in ("lo:", "hi:"):
            x = half + v.name
            if x in T0:
                for g in guards:
                    for t in ["0"] + hv:
                        add((g, ("eq", x, t)))
                        if t != "0":
                            add((g, ("ule", x, t)))
                            add((g, ("ule", t, x)))
    for v in ints:
        if v.kind == "int" and "e:" + v.name in T0:
            add(((("eq", "n", "0"),), ("eq", "v:" + v.name, "e:" + v.name)))
    # slots the loop has not reached yet still hold what they held
    for a in vis:
        b = {"ult": ("ule", a[2], a[1]), "ule": ("ult", a[2], a[1])}[a[0]]
        for v in ints:
            if "e:" + v.name in T0:
                add(((b,), ("eq", "v:" + v.name, "e:" + v.name)))
            if v.key[0] == "cell":
                for q in hbg:
                    add(((a, q), ("eq", "v:" + v.name, "1")))
        for h in hw:
            for t in hv:
                add(((b,), ("eq", h, t)))
                for q in hbg:
                    add(((b, q), ("eq", h, t)))
    for g in guards:
        for v in flags:
            x = "v:" + v.name
            if any(q[1] == x for q in g):
                continue
            add((g, ("flag", x)))
            add((g, ("nflag", x)))
        for h in hw:
            for t in ["0"] + hv + [y for y in hw if y > h]:
                add((g, ("eq", h, t)))
                if t == "0":
                    continue
                add((g, ("ule", h, t)))
                add((g, ("ule", t, h)))
        for q in hbg:
            if g and q not in g and (g[0] == ("ne", "n", "0") or any(a[0] in ("flag", "nflag") and a[1].startswith("v:") for a in g)):
                add((g, q))
    for a in vis:
        for f in fl:
            add(((f,), a))
        # what was visited was none of those that would have ended the loop
        for q in hbg:
            add(((a,), q))
    for t in T0:
        if t.startswith("a:"):
            for v in ints:
                if v.kind == "int" and not t.endswith("[%s]" % v.name) and v.w > 8:
                    for g in [()] + [(f,) for f in fl]:
                        add((g, ("eq", "v:" + v.name, t)))
    # conservation between pairs
    for i, v in enumerate(ints):
        for u in ints[i + 1:]:
            if "e:" + v.name in T0 and "e:" + u.name in T0 and v.w > 8 and u.w > 8:
                add(((), ("sumeq", "v:" + v.name, "v:" + u.name, "e:" + v.name, "e:" + u.name)))
                add(((), ("diffeq", "v:" + v.name, "v:" + u.name, "e:" + v.name, "e:" + u.name)))
    for v in bytes_:
        add(((), ("ule", "v:" + v.name, "1")))
    seen = set()
    out = []
    for cd in cands:
        if cd not in seen:
            seen.add(cd)
            out.append(cd)
    return out
