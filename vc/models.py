"""Assumed contracts of the functions outside /repo and the standard headers: allocator, libc, pthread, clocks, libstdc++
functions that exist only in the shared library, LLVM intrinsics, and the verification interface of include/vc.h."""
import re
import z3
from engine import Ptr, NULL, Undecided, PathEnd, Fork, BV64, mask, sgn, is_expr


def bvint(v):
    return v if isinstance(v, int) else None


def P(v):
    return v if isinstance(v, Ptr) else Ptr(None, v)


# ------------------------------------------------------------------ verification interface
def vc_havoc(e, st, fr, ins, a):
    name = cstr(e, st, a[0])
    w = a[1]
    v = e.fresh(w, name)
    if w == 1:
        v = z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        st.havocs.append((name, 64, v))
        return v
    st.havocs.append((name, w, v))
    return v if w == 64 else z3.ZeroExt(64 - w, v)


def vc_assume(e, st, fr, ins, a):
    c = a[0]
    if isinstance(c, int):
        if not c & 1:
            raise PathEnd("assume")
        return None
    c = e.boolv(c) if not z3.is_bv(c) else (z3.Extract(0, 0, c) == 1)
    if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)):
        st.model = None
    st.pc.append(c)
    if st.model is None and not e.feasible(st):
        raise PathEnd("infeasible")
    return None


def vc_assert(e, st, fr, ins, a):
    label = cstr(e, st, a[1])
    c = a[0]
    if isinstance(c, int):
        c = c & 1
    else:
        c = e.boolv(c) if not z3.is_bv(c) else (z3.Extract(0, 0, c) == 1)
    e.check(st, c, label)
    return None


def vc_cover(e, st, fr, ins, a):
    label = cstr(e, st, a[0])
    e.res.covers.setdefault(label, 0)
    if not e.muted and e.res.covers[label] < 1 and e.really_feasible(st):
        e.res.covers[label] += 1
    return None


def vc_term_ok(e, st, fr, ins, a):
    st.termok = a[0]
    return None


def vc_alloc(e, st, fr, ins, a):
    size, name, gran, align = a[0], cstr(e, st, a[1]), a[2], a[3]
    p = e.alloc(st, size, "heap", name, tag={"align": align})
    m = e.mw(st, p.obj)
    m.gran = gran if isinstance(gran, int) and gran else 1
    st.havocs.append(("@M", name, p.obj))
    if not isinstance(size, int):
        st.pc.append(z3.ULE(e.bv(size, 64), 1 << 46))
        st.model = None
        if not e.feasible(st):
            raise PathEnd("infeasible")
    return p


def vc_region(e, st, fr, ins, a):
    p, n, ld, sr = P(a[0]), a[1], P(a[2]), P(a[3])
    st.regions.append((p.obj, p.off, n, ld.obj[2:], sr.obj[2:]))
    return None


def vc_region_off(e, st, fr, ins, a):
    st.regions = []
    return None


def vc_hint(kind):
    def f(e, st, fr, ins, a):
        name = cstr(e, st, a[1])
        st.hints = [h for h in st.hints if h[:2] != (kind, name)] + [(kind, name, a[0])]
        return None
    return f


def vc_hint_bool(e, st, fr, ins, a):
    v = a[0]
    st.hints.append(("b", cstr(e, st, a[1]), v))
    return None


def vc_watch(e, st, fr, ins, a):
    st.hints.append(("w", cstr(e, st, a[2]), (P(a[0]), a[1])))
    return None


def vc_hint_array(e, st, fr, ins, a):
    st.hints.append(("a", cstr(e, st, a[2]), (P(a[0]), a[1])))
    return None


def vc_function(e, st, fr, ins, a):
    """value of an uninterpreted function: what is known of it is what contracts state"""
    import z3
    f = z3.Function("uf!" + cstr(e, st, a[0]), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(e.bv(a[1], 64, st), e.bv(a[2], 64, st))


def vc_base(e, st, fr, ins, a):
    """address of an object as an integer without provenance"""
    p = P(a[0])
    return e.addr(st, p)


def vc_lockhooks(e, st, fr, ins, a):
    p = P(a[0])
    st.locks = dict(st.locks)
    st.locks[(p.obj, p.off)] = (P(a[1]).obj[2:], P(a[2]).obj[2:])
    return None


def vc_mode(e, st, fr, ins, a):
    return 1


# ------------------------------------------------------------------ strings in harness constants
def cstr(e, st, p):
    p = P(p)
    if p.obj is None or not isinstance(p.off, int):
        raise Undecided("symbolic string")
    if p.obj.startswith("g:"):
        e.gobj(st, p.obj[2:])
    out = []
    i = p.off
    while True:
        b = e.read(st, p.obj, i, 1)
        if not isinstance(b, int):
            raise Undecided("symbolic string")
        if b == 0:
            break
        out.append(chr(b))
        i += 1
    return "".join(out)


# ------------------------------------------------------------------ allocation
def op_new(e, st, fr, ins, a):
    n = a[0]
    if not isinstance(n, int):
        b = e.bv(n, 64, st)
        st.pc.append(z3.ULE(b, 1 << 46))   # a larger request cannot succeed on this platform
        st.model = None
        if not e.feasible(st):
            raise PathEnd("infeasible")
    return e.alloc(st, n, "heap", "heap block")


def op_new_al(e, st, fr, ins, a):
    p = op_new(e, st, fr, ins, a)
    if isinstance(a[1], int):
        e.mw(st, p.obj).tag = {"align": max(16, a[1])}
    return p


def calloc(e, st, fr, ins, a):
    n = e.binop(st, "mul", a[0], a[1], 64, None)
    p = op_new(e, st, fr, ins, [n])
    m = e.mw(st, p.obj)
    m.arr = z3.K(BV64, z3.BitVecVal(0, 8))
    return p


def op_delete(e, st, fr, ins, a):
    p = P(a[0])
    if p.obj is None:
        if isinstance(p.off, int):
            if p.off == 0:
                return None
            e.fail_ob(st, "memory-safety: delete of an invalid pointer")
            raise PathEnd("bad delete")
        z = p.off == 0
        raise Fork(z) if e.sol.check(st.pc, [z])[0] == "sat" and e.sol.check(st.pc, [z3.Not(z)])[0] == "sat" \
            else Undecided("delete of a pointer without provenance")
    m = st.mem[p.obj]
    if m.kind != "heap" or not m.alive:
        e.fail_ob(st, "memory-safety: delete of memory that is not an allocated block")
        raise PathEnd("bad delete")
    off = p.off
    if isinstance(off, int):
        if off:
            e.fail_ob(st, "memory-safety: delete of an interior pointer")
            raise PathEnd("bad delete")
    else:
        e.check(st, off == 0, "memory-safety: delete of a block start")
    e.mw(st, p.obj).alive = False
    return None


# ------------------------------------------------------------------ memory intrinsics
def mem_copy(e, st, fr, ins, a):
    d, s, n = P(a[0]), P(a[1]), a[2]
    if isinstance(n, int):
        if n == 0:
            return None
        copy_n(e, st, d, s, n)
        return None
    n = e.bv(n, 64, st)
    ns = z3.simplify(n)
    if z3.is_bv_value(ns):
        copy_n(e, st, d, s, ns.as_long())
        return None
    # small or enumerable?
    if d.obj is None or s.obj is None:
        z = n == 0
        if e.sol.check(st.pc, [z3.Not(z)])[0] == "unsat":
            return None
        if e.sol.check(st.pc, [z])[0] == "sat":
            raise Fork(z)
    # bytes symbolic
    do, doff = res_sym(e, st, d, n, "write")
    so, soff = res_sym(e, st, s, n, "read")
    if do is None:
        return None
    sm = e.mw(st, so)
    e._st = st
    if sm.gran != 1:
        raise Undecided("symbolic copy from a granular object")
    e.flush(sm, so)
    sa = e.arr_of(sm, so)
    dm = e.mw(st, do)
    if dm.gran != 1:
        raise Undecided("symbolic copy to a granular object")
    if dm.ro:
        raise Undecided("write to constant global")
    e.flush(dm, do)
    da = e.arr_of(dm, do)
    for cx in st.ctxs:
        if int(do[1:]) < cx.oidmark if do[0] == "o" else True:
            st.wlog = (do, None, 0, st.wlog)
            break
    i = z3.BitVec("i!cp", 64)
    D, S = e.bv(doff, 64), e.bv(soff, 64)
    dm.arr = z3.Lambda([i], z3.If(z3.ULT(i - D, n), e.sel(sa, i - D + S), e.sel(da, i)))
    return None


def res_sym(e, st, p, n, what):
    """resolve a pointer for a symbolic length access"""
    if p.obj is None:
        z = n == 0
        if e.sol.check(st.pc, [z])[0] != "unsat":
            raise Fork(z)
        p = Ptr(*e.resolve(st, p, 1, what))
    o = p.obj
    if o.startswith("g:") and o not in st.mem:
        e.gobj(st, o[2:])
    m = st.mem[o]
    if not m.alive:
        e.fail_ob(st, "memory-safety: %s after lifetime end of %s" % (what, m.name))
        raise PathEnd("bad access")
    sz = e.bv(m.size, 64)
    ob = e.bv(p.off, 64)
    e.check(st, z3.And(z3.ULE(n, sz), z3.ULE(ob, sz - n)), "memory-safety: %s in bounds of %s" % (what, m.name))
    return o, p.off


def copy_n(e, st, d, s, n):
    do, doff = e.resolve(st, d, n, "write")
    so, soff = e.resolve(st, s, n, "read")
    m = st.mem[so]
    chunks = []
    if isinstance(soff, int):
        i = 0
        while i < n:
            c = m.cells.get(soff + i)
            if c is not None and i + c[0] <= n:
                chunks.append((i, c[0], c[1]))
                i += c[0]
                continue
            c = e.cell_at(m, soff + i)
            if c is None and m.gran == 1 and m.arr is None:
                # untouched memory: copy as 8-byte words where possible
                k = 1
                while k < 8 and i + 2 * k <= n and (soff + i) % (2 * k) == 0 and all(
                        e.cell_at(m, soff + i + j) is None for j in range(2 * k)):
                    k *= 2
                chunks.append((i, k, e.read(st, so, soff + i, k)))
                m = st.mem[so]
                i += k
                continue
            if m.gran != 1:
                g = m.gran
                k = g if i + g <= n and (soff + i) % g == 0 else 1
                chunks.append((i, k, e.read(st, so, soff + i, k)))
                m = st.mem[so]
                i += k
                continue
            chunks.append((i, 1, e.read(st, so, soff + i, 1)))
            m = st.mem[so]
            i += 1
    else:
        g = m.gran
        k = 1
        if n > 4096:
            raise Undecided("large copy at a symbolic offset")
        if g > 1 and n % g == 0:
            k = g
        elif n % 8 == 0:
            k = 8
        for i in range(0, n, k):
            chunks.append((i, k, e.read(st, so, e.offadd(soff, i), k)))
    for i, k, v in chunks:
        e.write(st, do, e.offadd(doff, i), k, v)


def mem_set(e, st, fr, ins, a):
    d, v, n = P(a[0]), a[1], a[2]
    if not isinstance(n, int):
        n = z3.simplify(n)
        if z3.is_bv_value(n):
            n = n.as_long()
    if isinstance(n, int):
        if n == 0:
            return None
        o, off = e.resolve(st, d, n, "write")
        i = 0
        b = v if isinstance(v, int) else None
        while i < n:
            k = 8 if i + 8 <= n and (not isinstance(off, int) or (off + i) % 8 == 0) else 4 if i + 4 <= n and (
                not isinstance(off, int) or (off + i) % 4 == 0) else 1
            if b is None:
                k = 1
            val = v if b is None else int.from_bytes(bytes([b & 255]) * k, "little")
            e.write(st, o, e.offadd(off, i), k, val)
            i += k
        return None
    n = e.bv(n, 64, st)
    if d.obj is None:
        z = n == 0
        if e.sol.check(st.pc, [z3.Not(z)])[0] == "unsat":
            return None
        if e.sol.check(st.pc, [z])[0] == "sat":
            raise Fork(z)
    do, doff = res_sym(e, st, d, n, "write")
    dm = e.mw(st, do)
    e._st = st
    if dm.gran != 1:
        raise Undecided("symbolic fill of a granular object")
    e.flush(dm, do)
    da = e.arr_of(dm, do)
    for cx in st.ctxs:
        if int(do[1:]) < cx.oidmark if do[0] == "o" else True:
            st.wlog = (do, None, 0, st.wlog)
            break
    i = z3.BitVec("i!ms", 64)
    D = e.bv(doff, 64)
    dm.arr = z3.Lambda([i], z3.If(z3.ULT(i - D, n), e.bv(v, 8), e.sel(da, i)))
    return None


def ret_first(h):
    def f(e, st, fr, ins, a):
        h(e, st, fr, ins, a)
        return a[0]
    return f


def memcmp(e, st, fr, ins, a):
    s, t, n = P(a[0]), P(a[1]), a[2]
    if not isinstance(n, int):
        n = z3.simplify(n)
        if z3.is_bv_value(n):
            n = n.as_long()
    if not isinstance(n, int) and e.o.get("memcmp"):
        return memcmp_any(e, st, s, t, n)
    if not isinstance(n, int):
        # enumerate feasible lengths when there are few
        r, m = e.sol.check(st.pc)
        if r != "sat":
            raise PathEnd("infeasible")
        v = m.eval(n, model_completion=True)
        if e.sol.check(st.pc, [n != v])[0] == "unsat":
            n = v.as_long()
        else:
            if v.as_long() > 256:
                r2, m2 = e.sol.check(st.pc, [z3.ULE(n, 256)])
                if r2 != "sat":
                    raise Undecided("memcmp of unbounded length")
                v = m2.eval(n, model_completion=True)
            st.counter["memcmp"] = st.counter.get("memcmp", 0) + 1
            if st.counter["memcmp"] > 400:
                raise Undecided("memcmp of unbounded length")
            raise Fork(n == v)
    res = z3.BitVecVal(0, 32)
    out = None
    if n == 0:
        return 0
    so, soff = e.resolve(st, s, n, "read")
    to, toff = e.resolve(st, t, n, "read")
    res = 0
    for i in reversed(range(n)):
        x = e.read(st, so, e.offadd(soff, i), 1)
        y = e.read(st, to, e.offadd(toff, i), 1)
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                res = mask(-1, 32) if x < y else 1
            continue
        X, Y = e.bv(x, 8, st), e.bv(y, 8, st)
        res = z3.If(X == Y, e.bv(res, 32), z3.If(z3.ULT(X, Y), z3.BitVecVal(mask(-1, 32), 32), z3.BitVecVal(1, 32)))
    return res


def memcmp_any(e, st, s, t, n):
    """comparison of any length: the result and the position of the first difference are new symbols; that everything before
    the difference (everything, when there is none) is equal is instantiated at the positions of interest"""
    z = n == 0
    if e.sol.check(st.pc, [z3.Not(z)])[0] == "unsat":
        return 0
    so, soff = res_sym(e, st, s, n, "read")
    to, toff = res_sym(e, st, t, n, "read")
    arrs = []
    for o in (so, to):
        m = e.mw(st, o)
        if m.gran != 1:
            raise Undecided("comparison of a granular object")
        e.flush(m, o)
        arrs.append(e.arr_of(m, o))
    so_, to_ = e.bv(soff, 64), e.bv(toff, 64)
    x = lambda i: e.sel(arrs[0], so_ + i)
    y = lambda i: e.sel(arrs[1], to_ + i)
    d = e.fresh(64, "diffat")
    r = e.fresh(2, "cmp")  # 0 equal, 1 less, 2 greater
    st.pc.append(z3.ULE(r, 2))
    st.pc.append(z3.Implies(r != 0, z3.And(z3.ULT(d, n), x(d) != y(d), (r == 1) == z3.ULT(x(d), y(d)))))
    upto = z3.If(r == 0, n, d)
    old = st.counter.get("cmps", ())
    points = [c[0] for c in old] + [h[2] for h in st.hints if h[0] == "i"]
    for i in points:
        i = e.bv(i, 64)
        st.pc.append(z3.Implies(z3.ULT(i, upto), x(i) == y(i)))
    for (_, u, f, g) in old:
        st.pc.append(z3.Implies(z3.ULT(d, u), f(d) == g(d)))
    st.counter["cmps"] = old + ((d, upto, x, y),)
    st.model = None
    e.res.assumed.add("memcmp follows its specification")
    return z3.If(r == 0, z3.BitVecVal(0, 32), z3.If(r == 1, z3.BitVecVal(mask(-1, 32), 32), z3.BitVecVal(1, 32)))


def strlen(e, st, fr, ins, a):
    p = P(a[0])
    i = 0
    while True:
        o, off = e.resolve(st, Ptr(p.obj, e.offadd(p.off, i)), 1, "read")
        b = e.read(st, o, off, 1)
        if isinstance(b, int):
            if b == 0:
                return i
        else:
            z = b == 0
            if e.sol.check(st.pc, [z3.Not(z)])[0] == "unsat":
                return i
            if e.sol.check(st.pc, [z])[0] == "sat":
                raise Fork(z)
        i += 1
        if i > 4096:
            raise Undecided("strlen")


def memchr(e, st, fr, ins, a):
    p, c, n = P(a[0]), a[1], a[2]
    if not isinstance(n, int):
        raise Undecided("memchr of symbolic length")
    for i in range(n):
        o, off = e.resolve(st, Ptr(p.obj, e.offadd(p.off, i)), 1, "read")
        b = e.read(st, o, off, 1)
        if isinstance(b, int) and isinstance(c, int):
            if b == c & 255:
                return Ptr(p.obj, e.offadd(p.off, i))
            continue
        z = e.bv(b, 8) == e.trunc(st, e.bv(c, 32), 32, 8)
        if e.sol.check(st.pc, [z3.Not(z)])[0] == "unsat":
            return Ptr(p.obj, e.offadd(p.off, i))
        if e.sol.check(st.pc, [z])[0] == "sat":
            raise Fork(z)
    return NULL


# ------------------------------------------------------------------ termination
def terminate(e, st, fr, ins, a):
    ok = st.termok
    if isinstance(ok, int):
        if not ok & 1:
            e.fail_ob(st, "no unexpected process termination")
        raise PathEnd("terminate")
    c = e.boolv(ok) if not z3.is_bv(ok) else z3.Extract(0, 0, ok) == 1
    e.check(st, c, "no unexpected process termination")
    raise PathEnd("terminate")


def const(v):
    return lambda e, st, fr, ins, a: v


def havoc_ret(name):
    def f(e, st, fr, ins, a):
        ty = ins.ty
        if ty.kind == "void":
            return None
        if ty.kind == "ptr":
            return NULL
        w = ty.width
        v = e.fresh(w, name)
        e.res.assumed.add("result of %s is unconstrained" % name)
        return v
    return f


# ------------------------------------------------------------------ locks
def lock_acq(e, st, fr, ins, a):
    return lock_op(e, st, ins, P(a[0]), 0)


def lock_rel(e, st, fr, ins, a):
    return lock_op(e, st, ins, P(a[0]), 1)


def lock_op(e, st, ins, p, which):
    h = st.locks.get((p.obj, p.off))
    if h is None:
        return 0
    def done(e2, s2, _, ins=ins):
        return e2.finish(s2, ins, 0)
    e.push(st, h[which], [p], on_ret=done)
    return ("PUSHED", None)


def guard_acquire(e, st, fr, ins, a):
    p = P(a[0])
    b = e.read(st, p.obj, p.off, 1)
    return 0 if b == 1 else 1


def guard_release(e, st, fr, ins, a):
    p = P(a[0])
    e.write(st, p.obj, p.off, 1, 1)
    return None


# ------------------------------------------------------------------ typeinfo
def bases_of(e, ti, seen=None):
    """typeinfo global -> {name: offset} of public bases (transitively)"""
    g = e.m.globals.get(ti)
    out = {ti: 0}
    if g is None or g.init is None or g.init.kind != "agg":
        return out
    vt = g.init.args[0]
    txt = root_glob(vt)
    if "si_class_type_info" in txt:
        b = g.init.args[2]
        for k, o in bases_of(e, b.v).items():
            out.setdefault(k, o)
    elif "vmi_class_type_info" in txt:
        args = g.init.args
        i = 4
        while i + 1 < len(args):
            off = sgn(args[i + 1].v, 64) >> 8
            if args[i + 1].v & 1:
                raise Undecided("virtual base in dynamic_cast")
            for k, o in bases_of(e, args[i].v).items():
                out.setdefault(k, o + off)
            i += 2
    return out


def root_glob(c):
    while c.kind == "expr":
        c = c.args[0]
    return c.v or ""


def dynamic_cast(e, st, fr, ins, a):
    p = P(a[0])
    if p.obj is None and p.off == 0:
        return NULL
    o, off = e.resolve(st, p, 8, "read")
    vt = e.read(st, o, off, 8)
    if not isinstance(vt, Ptr) or vt.obj is None:
        raise Undecided("dynamic_cast on unknown vtable")
    ti = e.read(st, vt.obj, vt.off - 8, 8)
    top = e.read(st, vt.obj, vt.off - 16, 8)
    top = top.off if isinstance(top, Ptr) else top
    dst = P(a[2]).obj[2:]
    bs = bases_of(e, ti.obj[2:])
    if dst not in bs:
        return NULL
    return Ptr(p.obj, e.offadd(p.off, mask(sgn(top, 64) + bs[dst], 64)))


# ------------------------------------------------------------------ libstdc++ pieces
def std_hash_bytes(e, st, fr, ins, a):
    p, n, seed = P(a[0]), a[1], a[2]
    if not isinstance(n, int):
        e.res.assumed.add("std::_Hash_bytes of symbolic length is unconstrained")
        return e.fresh(64, "hash")
    f = z3.Function("hashbytes%d" % n, *([z3.BitVecSort(8)] * n + [BV64, BV64]))
    bs = []
    for i in range(n):
        o, off = e.resolve(st, Ptr(p.obj, e.offadd(p.off, i)), 1, "read")
        bs.append(e.bv(e.read(st, o, off, 1), 8, st))
    e.res.assumed.add("std::_Hash_bytes is an uninterpreted function of its input")
    return f(*bs, e.bv(seed, 64))


def install(e):
    x = e.ext
    x["__vc_havoc"] = vc_havoc
    x["__vc_assume"] = vc_assume
    x["__vc_assert"] = vc_assert
    x["__vc_cover"] = vc_cover
    x["__vc_term_ok"] = vc_term_ok
    x["__vc_alloc"] = vc_alloc
    x["__vc_region"] = vc_region
    x["__vc_region_off"] = vc_region_off
    x["__vc_hint_index"] = vc_hint("i")
    x["__vc_hint_bound"] = vc_hint("n")
    x["__vc_hint_value"] = vc_hint("v")
    x["__vc_hint_prophecy"] = vc_hint("p")
    x["__vc_hint_bool"] = vc_hint_bool
    x["__vc_watch"] = vc_watch
    x["__vc_hint_array"] = vc_hint_array
    x["__vc_function"] = vc_function
    x["__vc_base"] = vc_base
    x["__vc_lockhooks"] = vc_lockhooks
    x["__vc_symbolic"] = vc_mode
    for n in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
        x[n] = op_new
    for n in ("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"):
        x[n] = op_new_al
    x["calloc"] = calloc
    for n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t",
              "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"):
        x[n] = op_delete
    x["memcpy"] = x["memmove"] = ret_first(mem_copy)
    x["memset"] = ret_first(mem_set)
    x["memcmp"] = x["bcmp"] = memcmp
    x["strlen"] = strlen
    x["memchr"] = memchr
    for n in ("abort", "_ZSt9terminatev", "__assert_fail", "__clang_call_terminate", "_exit", "exit", "quick_exit",
              "__cxa_pure_virtual", "__cxa_throw", "__cxa_rethrow", "_ZSt10unexpectedv", "__cxa_throw_bad_array_new_length",
              "__cxa_bad_cast", "_Exit", "__cxa_bad_typeid"):
        x[n] = terminate
    x["__cxa_atexit"] = const(0)
    x["atexit"] = const(0)
    x["nanosleep"] = x["clock_nanosleep"] = x["usleep"] = x["sched_yield"] = const(0)
    x["__cxa_guard_acquire"] = guard_acquire
    x["__cxa_guard_release"] = guard_release
    x["__cxa_allocate_exception"] = op_new
    x["__cxa_free_exception"] = const(None)
    x["__cxa_begin_catch"] = const(NULL)
    x["__dynamic_cast"] = dynamic_cast
    for n in ("pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock"):
        x[n] = lock_acq
    for n in ("pthread_mutex_unlock", "pthread_rwlock_unlock"):
        x[n] = lock_rel
    for n in ("pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype",
              "pthread_mutexattr_setpshared", "pthread_mutexattr_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_init",
              "pthread_cond_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "sched_yield", "fflush",
              "fputs", "puts", "putchar", "fprintf", "printf", "fputc", "fwrite", "pthread_once"):
        x[n] = const(0)
    x["__libc_single_threaded"] = const(0)
    x["pthread_self"] = const(1)
    x["__errno_location"] = errno_loc
    x["_ZSt11_Hash_bytesPKvmm"] = std_hash_bytes
    x["getpid"] = havoc_ret("getpid")
    x["getuid"] = havoc_ret("getuid")
    x["usleep"] = const(0)
    rx = e.ext_rx = []
    rx.append((re.compile(r"^std::__throw_"), terminate))
    rx.append((re.compile(r"^std::__glibcxx_assert_fail|^std::__replacement_assert"), terminate))
    rx.append((re.compile(r"^std::condition_variable::(notify_|condition_variable|~condition_variable)"), const(None)))
    rx.append((re.compile(r"^std::(ios_base::Init|locale|basic_ostream|basic_ios|ostream|ios_base)"), const(None)))
    rx.append((re.compile(r"^std::this_thread"), const(None)))


def errno_loc(e, st, fr, ins, a):
    o = "g:!errno"
    if o not in st.mem:
        from engine import MemData
        m = MemData()
        m.cells, m.arr, m.alive, m.gran, m.kind, m.ro, m.owner, m.region, m.tag = {}, None, True, 1, "global", False, st.tok, None, None
        m.name, m.size = "errno", 4
        st.mem[o] = m
    return Ptr(o, 0)


# ------------------------------------------------------------------ LLVM intrinsics
IGN = ("llvm.lifetime.", "llvm.dbg.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant.", "llvm.prefetch",
       "llvm.stackrestore", "llvm.donothing", "llvm.va_end", "llvm.var.annotation", "llvm.pseudoprobe")


def minmax(pred):
    def f(e, st, fr, ins, a):
        return e.ite(st, e.icmp(st, pred, a[0], a[1], ins.ty), a[0], a[1], ins.ty)
    return f


def with_ovf(op, signed):
    def f(e, st, fr, ins, a):
        w = ins.ty.elems[0].width
        x, y = a
        r = e.binop(st, op, x, y, w, None)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            x, y = e.bv(x, w, st), e.bv(y, w, st)
        if isinstance(x, int) and isinstance(y, int):
            if signed:
                x, y = sgn(x, w), sgn(y, w)
            t = x + y if op == "add" else x - y if op == "sub" else x * y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            return [r, int(not lo <= t <= hi)]
        X, Y = e.bv(x, w, st), e.bv(y, w, st)
        if op == "add":
            ok = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)) if signed else z3.UGE(X + Y, X)
        elif op == "sub":
            ok = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True)) if signed else z3.UGE(X, Y)
        else:
            ok = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y)) if signed else z3.BVMulNoOverflow(X, Y, False)
        return [r, e.sbool(z3.Not(ok))]
    return f


def sat(op, signed):
    def f(e, st, fr, ins, a):
        w = ins.ty.width
        if signed:
            raise Undecided("signed saturating arithmetic")
        X, Y = e.bv(a[0], w, st), e.bv(a[1], w, st)
        if op == "add":
            return e.norm(z3.simplify(z3.If(z3.UGE(X + Y, X), X + Y, z3.BitVecVal((1 << w) - 1, w))))
        return e.norm(z3.simplify(z3.If(z3.UGE(X, Y), X - Y, z3.BitVecVal(0, w))))
    return f


def bswap(e, st, fr, ins, a):
    w = ins.ty.width
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
    v = e.bv(a[0], w, st)
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)])


def bitcount(kind):
    def f(e, st, fr, ins, a):
        w = ins.ty.width
        v = a[0]
        if isinstance(v, int):
            if kind == "ctpop":
                return bin(v).count("1")
            if kind == "ctlz":
                return w - v.bit_length()
            return w if v == 0 else (v & -v).bit_length() - 1
        v = e.bv(v, w, st)
        if kind == "ctpop":
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
            return r
        r = z3.BitVecVal(w, w)
        rng = range(w) if kind == "ctlz" else reversed(range(w))
        for i in rng:
            r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i if kind == "ctlz" else i, w), r)
        return r
    return f


def absv(e, st, fr, ins, a):
    w = ins.ty.width
    if isinstance(a[0], int):
        return mask(abs(sgn(a[0], w)), w)
    v = e.bv(a[0], w, st)
    return z3.If(v < 0, -v, v)


def fsh(left):
    def f(e, st, fr, ins, a):
        w = ins.ty.width
        c = a[2]
        if not isinstance(c, int):
            raise Undecided("funnel shift by symbolic amount")
        c %= w
        x = z3.Concat(e.bv(a[0], w, st), e.bv(a[1], w, st))
        k = w - c if left else c
        if k == 2 * w:
            return a[0]
        if left:
            return z3.Extract(2 * w - 1 - c, w - c, x)
        return z3.Extract(w + c - 1, c, x)
    return f


def ident(e, st, fr, ins, a):
    return a[0]


def stacksave(e, st, fr, ins, a):
    return NULL


def intrinsic(e, name):
    for p in IGN:
        if name.startswith(p):
            return const(None)
    base = name[5:]
    for p, h in (("memcpy", mem_copy), ("memmove", mem_copy), ("memset", mem_set), ("umax.", minmax("ugt")),
                 ("umin.", minmax("ult")), ("smax.", minmax("sgt")), ("smin.", minmax("slt")), ("abs.", absv),
                 ("uadd.with.overflow", with_ovf("add", False)), ("usub.with.overflow", with_ovf("sub", False)),
                 ("umul.with.overflow", with_ovf("mul", False)), ("sadd.with.overflow", with_ovf("add", True)),
                 ("ssub.with.overflow", with_ovf("sub", True)), ("smul.with.overflow", with_ovf("mul", True)),
                 ("uadd.sat", sat("add", False)), ("usub.sat", sat("sub", False)), ("bswap", bswap),
                 ("ctpop", bitcount("ctpop")), ("ctlz", bitcount("ctlz")), ("cttz", bitcount("cttz")),
                 ("fshl", fsh(True)), ("fshr", fsh(False)), ("expect", ident), ("launder.invariant.group", ident),
                 ("strip.invariant.group", ident), ("threadlocal.address", ident), ("stacksave", stacksave),
                 ("trap", terminate), ("is.constant", const(0)), ("eh.typeid.for", const(0)),
                 ("ubsantrap", terminate), ("debugtrap", const(None))):
        if base.startswith(p):
            return h
    return None
