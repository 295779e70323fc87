"""Loop summaries: closed forms of loop-carried values."""
import ast
from . import terms as t
from . import rules as R
from .terms import (T, mk, num, sym, ZERO, ONE, TWO, NONE, TRUE, FALSE, F1, C1, add, sub, mul, ite, lt, le, eq, b_and, b_or,
                    b_not, truth, rank, opaque, item, spread, mklist, subst, bind, fresh, index, length, dim, upd, as_int,
                    is_real, is_int, syms_of, monos)

UNROLL = 8


class Dom:
    def __init__(self, lo=None, hi=None, elem=None, items=None):
        self.lo, self.hi, self.elem, self.items = lo, hi, elem, items


def domain(I, st, it):
    """iteration domain of a value"""
    from .vflow import TupV, Ref
    if isinstance(it, TupV):
        return Dom(items=list(it.items))
    if isinstance(it, Ref) and st.heap[it.id].kind == "dict":
        d = st.heap[it.id].val
        if d.op == "dict":
            return Dom(items=[k for k, _ in d.args[0]])
        return None
    return dom_term(I, st, I.tv(st, it))


def dom_term(I, st, x):
    from .vflow import TupV
    if x.op == "opaque":
        return None
    if x.op == "gamma":
        c = x.args[0]
        d1, d2 = dom_term(I, st, x.args[1]), dom_term(I, st, x.args[2])
        if d1 is None or d2 is None or d1.items is not None or d2.items is not None:
            return None
        if d1.lo is d2.lo:
            return Dom(d1.lo, ite(c, d1.hi, d2.hi), lambda v: ite(c, I.tv(st, d1.elem(v)), I.tv(st, d2.elem(v))))
        return Dom(ZERO, ite(c, sub(d1.hi, d1.lo), sub(d2.hi, d2.lo)),
                   lambda v: ite(c, I.tv(st, d1.elem(add(d1.lo, v))), I.tv(st, d2.elem(add(d2.lo, v)))))
    if x.op == "app":
        n, a = x.args[0], x.args[1]
        if n == "arange":
            lo, hi = a[0], a[1]
            step = a[2] if len(a) > 2 else ONE
            s = as_int(step)
            if s == 1:
                k = as_int(sub(hi, lo))
                if k is not None and k <= UNROLL:
                    return Dom(items=[add(lo, num(i)) for i in range(max(0, k))])
                return Dom(lo, hi, lambda v: v)
            if s is not None and s < 0:
                c = t.app("floordiv", (add(sub(lo, hi), num(-s - 1)), num(-s)), ())
            elif s is not None and s > 0:
                c = t.app("floordiv", (add(sub(hi, lo), num(s - 1)), num(s)), ())
            elif t.is_int(step):
                q = t.div(sub(hi, lo), step)
                if not t.is_int(q):
                    q = t.app("floordiv", (add(sub(hi, lo), sub(step, ONE)), step), ())
                c = q
            else:
                return None
            k = as_int(c)
            if k is not None and k <= UNROLL:
                return Dom(items=[add(lo, mul(step, num(i))) for i in range(max(0, k))])
            return Dom(ZERO, c, lambda v: add(lo, mul(step, v)))
        if n == "enumerate":
            d = dom_term(I, st, a[0])
            if d is None:
                return None
            s0 = a[1] if len(a) > 1 else ZERO
            if d.items is not None:
                return Dom(items=[TupV([add(s0, num(i)), e]) for i, e in enumerate(d.items)])
            return Dom(d.lo, d.hi, lambda v: TupV([add(s0, sub(v, d.lo)), d.elem(v)]))
        if n == "zip":
            ds = [dom_term(I, st, y) for y in a]
            if any(d is None for d in ds):
                return None
            if any(d.items is not None for d in ds):
                if all(d.items is not None for d in ds):
                    return Dom(items=[TupV(list(z)) for z in zip(*[d.items for d in ds])])
                return None
            n0 = sub(ds[0].hi, ds[0].lo)
            for d in ds[1:]:
                m = sub(d.hi, d.lo)
                if m is not n0:
                    c = le(n0, m)
                    if c is FALSE:
                        n0 = m
                    elif c is not TRUE:
                        n0 = t.app("min", (n0, m), ())
            return Dom(ZERO, n0, lambda v: TupV([d.elem(add(v, d.lo)) for d in ds]))
        if n == "rev":
            d = dom_term(I, st, a[0])
            if d is None:
                return None
            if d.items is not None:
                return Dom(items=list(reversed(d.items)))
            return Dom(d.lo, d.hi, lambda v: d.elem(sub(sub(add(d.lo, d.hi), ONE), v)))
        if n == "flip" and rank(a[0]) == 1:
            return dom_term(I, st, t.app("rev", (a[0],), ()))
    if x.op == "tuple":
        return Dom(items=list(x.args))
    its = R.list_items(x)
    if its is not None and len(its) <= 16:
        return Dom(items=its)
    if x.op == "arr" and x.args[0][0] <= UNROLL:
        return Dom(items=[index(x, (num(i),)) for i in range(x.args[0][0])])
    if x.op in ("num", "str", "none", "lam"):
        return None
    n = length(x)
    return Dom(ZERO, n, lambda v: index(x, (v,)))


# ------------------------------------------------------------- syntactic facts
def assigned(body):
    """names bound by plain assignment / loop targets, and names only augmented"""
    plain, aug = set(), set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                plain.add(n.id)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                aug.add(n.target.id)
            self.visit(n.value)

        def visit_FunctionDef(self, n):
            plain.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    for s in body:
        V().visit(s)
    return plain, aug


# ------------------------------------------------------------- for / while
def do_for(I, n, st, fr):
    it = I.expr(n.iter, st, fr)
    d = domain(I, st, it)
    I.loops += 1
    if d is None:
        return havoc(I, n, st, fr)
    if d.items is not None and len(d.items) <= 16:
        return unroll(I, n, d.items, st, fr)
    if d.items is not None:
        return havoc(I, n, st, fr)
    v = fresh(d.lo, d.hi)

    def enter(s):
        e = d.elem(v)
        I.assign(n.target, I.box(s, e) if isinstance(e, T) else e, s, fr)

    return summarise(I, n, v, d.lo, d.hi, enter, st, fr)


def unroll(I, n, items, st, fr):
    outs = []
    live = [st]
    broke = []
    for x in items:
        if not live:
            break
        s = join(I, live)
        I.assign(n.target, I.box(s, x) if isinstance(x, T) else x, s, fr)
        live = []
        for k, s2, v in I.block(n.body, s, fr):
            if k in ("next", "continue"):
                live.append(s2)
            elif k == "break":
                broke.append(s2)
            else:
                outs.append((k, s2, v))
    if live and n.orelse:
        l2 = []
        for k, s2, v in I.block(n.orelse, join(I, live), fr):
            if k == "next":
                l2.append(s2)
            else:
                outs.append((k, s2, v))
        live = l2
    return outs + [("next", s, None) for s in live + broke]


def join(I, states):
    cur = states[-1]
    for s in reversed(states[:-1]):
        pc = ite(s.pc, TRUE, cur.pc)
        m = I.merge(s.pc, s, cur)
        if m is s or m is cur:
            m = m.copy()
        m.pc = pc
        cur = m
    return cur


def havoc(I, n, st, fr):
    plain, aug = assigned(n.body + ([ast.Assign(targets=[n.target], value=None)] if False else []))
    if isinstance(n, ast.For):
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                plain.add(x.id)
    for nm in plain | aug:
        v = st.env.get(nm)
        from .vflow import Ref
        if isinstance(v, Ref) and v.id in st.heap:
            st.heap[v.id] = type(st.heap[v.id])(st.heap[v.id].kind if st.heap[v.id].kind != "view" else "arr", opaque("loop"), None)
        else:
            st.env[nm] = opaque("loop")
    # anything mutated through a name
    for s in n.body:
        for x in ast.walk(s):
            b = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                b = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                b = x.func.value
            if isinstance(x, ast.Call):
                for a in x.args:
                    _hav(I, st, a)
            if b is not None:
                _hav(I, st, b)
            if isinstance(x, ast.Return):
                # an exit we cannot place
                I.note_taint("return inside an unsummarised loop")
    return [("next", st, None)]


def _hav(I, st, b):
    from .vflow import Ref, Cell
    while isinstance(b, (ast.Subscript, ast.Attribute)):
        b = b.value
    if isinstance(b, ast.Name):
        v = st.env.get(b.id)
        if isinstance(v, Ref) and v.id in st.heap and st.heap[v.id].kind != "view":
            st.heap[v.id] = Cell(st.heap[v.id].kind, opaque("loop"), None)


_pid = [0]


def placeholder(val, dt):
    _pid[0] += 1
    r = rank(val)
    if val.op == "list" or isinstance(t.base_rank(val), tuple):
        kind = "list:any"
    elif t.is_bool(val):
        kind = "bool"
    elif r == 0:
        kind = "int" if is_int(val) else ("real" if is_real(val) else "scalar")
    elif r == 1:
        kind = "vec"
    elif r == 2:
        kind = "mat"
    else:
        kind = "any"
    p = sym(f"prev:{_pid[0]}" + ("!real" if dt in ("float", "int", "bool") else ""), kind)
    if kind in ("vec", "mat"):
        t.PREV_INIT[p] = val
    if dt is not None:
        t.PREV_DT[p] = dt
    return p


def ok_kind(p, e):
    k = p.args[1]
    if k == "int":
        return is_int(e)
    if k == "real":
        return is_real(e)
    if k == "scalar":
        return rank(e) == 0
    if k == "vec":
        return rank(e) in (1, None)
    if k == "mat":
        return rank(e) in (2, None)
    if k == "bool":
        return t.is_bool(e) or e is p or boolish(e, p)
    return True


def boolish(e, p):
    if e.op == "gamma":
        return boolish(e.args[1], p) and boolish(e.args[2], p)
    return e is p or t.is_bool(e)


def weaken(p, e):
    k = p.args[1]
    if k == "int" and is_real(e) and rank(e) == 0:
        return "real"
    if k in ("int", "real") and rank(e) == 0:
        return "scalar"
    if rank(e) == 2:
        return "mat"
    if rank(e) == 1:
        return "vec"
    return "any"


def summarise(I, n, v, lo, hi, enter, st, fr, while_info=None):
    from .vflow import Ref, Cell, Undecided
    plain, aug = assigned(n.body)
    if isinstance(n, ast.For):
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    else:
        tnames = set()
    plain -= tnames
    cells = set()
    kinds = {}
    forced = {}
    for attempt in range(7):
        s = st.copy()
        s.pc = TRUE
        prev = {}      # loc -> prev symbol
        init = {}
        holder = {}
        for nm in sorted(plain | aug):
            val = s.env.get(nm)
            if val is None:
                continue
            if isinstance(val, Ref):
                if nm not in plain:
                    c = s.heap[val.id]
                    if rank(I.tv(s, val)) is None and c.kind == "arr" or c.kind == "view":
                        pass
                    cells.add(val.id)
                    continue
                tvv = I.tv(st, val)
                c = s.heap[val.id]
                p = mkprev(("n", nm), tvv, forced, c.dt if c.kind == "arr" else None)
                prev[("n", nm)] = p
                init[p] = tvv
                r = I.new(s, "arr" if c.kind == "view" else c.kind, p, c.dt)
                holder[nm] = r.id
                s.env[nm] = r
            elif isinstance(val, T):
                p = mkprev(("n", nm), val, forced)
                prev[("n", nm)] = p
                init[p] = val
                s.env[nm] = p
            else:
                # functions, tuples
                tvv = I.tv(st, val)
                p = mkprev(("n", nm), tvv, forced)
                prev[("n", nm)] = p
                init[p] = tvv
                s.env[nm] = p
        for cid in sorted(cells):
            c = st.heap[cid]
            if c.kind == "view":
                continue
            if c.kind == "dict":
                return havoc(I, n, st, fr)
            p = mkprev(("c", cid), c.val, forced, c.dt if c.kind == "arr" else None)
            prev[("c", cid)] = p
            init[p] = c.val
            s.heap[cid] = Cell(c.kind, p, c.dt)
        start_heap = dict(s.heap)
        draws0 = dict(s.draws)
        col = []
        I.raises.append(col)
        lv0 = I.loop_vars
        try:
            if v is not None:
                I.loop_vars = lv0 + (v,)
            enter(s)
            if while_info is not None:
                r = while_info(I, s, prev, fr)
                if r is None:
                    return havoc(I, n, st, fr)
                v, lo, hi = r
                I.loop_vars = lv0 + (v,)
            outs = I.block(n.body, s, fr)
        finally:
            I.raises.pop()
            I.loop_vars = lv0
        ends = [x for k, x, _ in outs if k in ("next", "continue")]
        brk = [x for k, x, _ in outs if k == "break"]
        rets = [(x, y) for k, x, y in outs if k == "return"]
        E = join(I, ends) if ends else None
        # newly mutated cells?
        new = set()
        for x in ([E] if E is not None else []) + brk + [a for a, _ in rets]:
            for cid, c in start_heap.items():
                if cid in st.heap and x.heap.get(cid) is not c and c.kind != "view":
                    if x.heap.get(cid) is None or x.heap[cid].val is not c.val:
                        new.add(cid)
        if not (new <= cells):
            cells |= new
            continue
        # kinds stable?
        bad = False
        if E is not None:
            for loc, p in prev.items():
                e = loc_value(I, E, loc)
                if not ok_kind(p, e):
                    forced[loc] = weaken(p, e)
                    bad = True
        if not bad:
            break
    else:
        return havoc(I, n, st, fr)

    # -------- solve
    vals = {p: (loc_value(I, E, loc) if E is not None else p) for loc, p in prev.items()}
    partial, final = {}, {}
    allprev = set(prev.values())
    todo = dict(vals)
    progress = True
    breaking = bool(brk)
    run = None
    if brk and not rets and E is not None and any(e is not p for p, e in vals.items()):
        # carried values stop changing once the loop is left: a flag is carried along
        cb = FALSE
        for x in brk:
            cb = b_or(cb, x.pc)
        B = join(I, brk)
        if cb.op != "opaque":
            run = mkprev(("run",), TRUE, {})
            for loc, p in prev.items():
                bv = loc_value(I, B, loc)
                if bv is not p or vals[p] is not p:
                    vals[p] = ite(run, ite(cb, bv, vals[p]), p)
            vals[run] = b_and(run, b_not(cb))
            init[run] = TRUE
            allprev.add(run)
            todo = dict(vals)
            breaking = False
            if vals[run] is not run and run not in syms_of(cb) and not (syms_of(cb) & allprev):
                def going(h):
                    w = fresh(lo, h)
                    return b_not(bind("exists", w, lo, h, subst(cb, {v: w})))
                partial[run], final[run] = going, going(hi)
                del todo[run]
    while todo and progress:
        progress = False
        for p in sorted(todo, key=lambda x: x.args[0]):
            e = todo[p]
            if breaking and e is not p:
                continue
            sol = [q for q in partial if q in syms_of(e)]
            if sol:
                try:
                    e = substp(e, {q: partial[q](v) for q in sol})
                except t.TooBig:
                    e = opaque("too big")
            if (syms_of(e) & allprev) - {p}:
                continue
            r = closed(p, init[p], e, v, lo, hi)
            if r is None:
                continue
            final[p] = r(hi)
            partial[p] = r
            del todo[p]
            progress = True
    if not breaking:
        fold_groups(I, todo, init, partial, allprev, v, lo, hi, final)
    for p in list(todo):
        if breaking and todo[p] is p:
            final[p] = init[p]
        elif p not in final:
            final[p] = opaque("loop-carried value")

    def solved(x):
        """term of the body with loop-carried values replaced (valid at iteration v)"""
        m = {}
        for q in syms_of(x) & allprev:
            if q in partial:
                m[q] = partial[q](v)
            else:
                m[q] = opaque("loop-carried value")
        return substp(x, m) if m else x

    # -------- exits
    base_pc = st.pc
    outs2 = []
    found = FALSE
    if rets or brk or col:
        conds = []
        for x, y in rets:
            conds.append((solved(x.pc), solved(I.tv(x, y)), "ret"))
        rc = [c for c, _, k in conds]
        cr = FALSE
        for c in rc:
            cr = b_or(cr, c)
        if rets:
            found = bind("exists", v, lo, hi, cr) if cr.op != "opaque" else mk("truthy", cr)
            val = None
            vs_ = [y for _, y, _ in conds]
            if len({id(y) for y in vs_}) == 1 and v not in vs_[0].fvs:
                val = vs_[0]
            else:
                # first iteration at which an exit condition holds
                body = vs_[-1]
                for c, y, _ in reversed(conds[:-1]):
                    body = ite(c, y, body)
                if any(z.op == "opaque" for z in (cr, body)):
                    val = opaque("loop exit")
                else:
                    val = t.close("firstof", v, lo, hi, cr, body)
            sr = st.copy()
            sr.pc = b_and(base_pc, found)
            if brk:
                I.note_taint("return and break in one loop")
            outs2.append(("return", sr, val))
        for pc, ex in col:
            c = solved(b_and(run, pc) if run is not None else pc)
            I.raises[-1].append((b_and(base_pc, bind("exists", v, lo, hi, c) if c.op != "opaque" else mk("truthy", c)), ex))
    # -------- state after the loop
    for loc, p in prev.items():
        put(I, st, loc, final[p], E, holder, p)
    if brk and run is not None:
        fb = b_not(t.truth(final[run]))
        for nm in plain | tnames:
            if ("n", nm) not in prev:
                st.env[nm] = opaque("value at break")
        if n.orelse:
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = b_and(st.pc, fb), b_and(st.pc, b_not(fb))
            o = I.block(n.orelse, s2, fr)
            return outs2 + o + [("next", s1, None)]
        return outs2 + [("next", st, None)]
    if brk:
        cb = FALSE
        for x in brk:
            cb = b_or(cb, solved(x.pc))
        fb = bind("exists", v, lo, hi, cb) if cb.op != "opaque" else mk("truthy", cb)
        B = join(I, brk)
        changed = [loc for loc, p in prev.items() if vals[p] is not p]
        for loc, p in prev.items():
            bv = loc_value(I, B, loc)
            if bv is p and vals[p] is p:
                continue
            if vals[p] is not p:
                put(I, st, loc, opaque("value at break"), E, holder, p)
                continue
            bv = solved(bv)
            if v in bv.fvs:
                bv = t.close("firstof", v, lo, hi, cb, bv) if bv.op != "opaque" and cb.op != "opaque" else opaque("break")
            put(I, st, loc, ite(fb, bv, init[p]), E, holder, p)
        for nm in plain | tnames:
            if ("n", nm) not in prev:
                st.env[nm] = opaque("value at break")
        if n.orelse:
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = b_and(st.pc, fb), b_and(st.pc, b_not(fb))
            o = I.block(n.orelse, s2, fr)
            return outs2 + o + [("next", s1, None)]
        return outs2 + [("next", st, None)]
    if E is not None:
        for nm in sorted(plain | tnames):
            if ("n", nm) in prev:
                continue
            x = E.env.get(nm)
            if x is None:
                continue
            if not isinstance(x, (T, Ref)):
                st.env[nm] = x if not isinstance(x, (T, Ref)) and nm not in tnames else opaque("loop tuple")
                continue
            e = solved(I.tv(E, x))
            if nm in st.env and isinstance(st.env[nm], T) and False:
                pass
            e = subst(e, {v: sub(hi, ONE)}) if e.op != "opaque" else e
            if nm in st.env:
                old = I.tv(st, st.env[nm])
                e = ite(lt(lo, hi), e, old)
            st.env[nm] = I.box(st, e)
    if found is not FALSE:
        st.pc = b_and(base_pc, b_not(found))
    if n.orelse:
        return outs2 + I.block(n.orelse, st, fr)
    return outs2 + [("next", st, None)]


def fold_groups(I, todo, init, partial, allprev, v, lo, hi, final):
    """loop-carried values without a closed form: structural recursion terms"""
    es = {}
    for p, e in todo.items():
        sol = [q for q in partial if q in syms_of(e)]
        if sol:
            try:
                e = substp(e, {q: partial[q](v) for q in sol})
            except t.TooBig:
                e = opaque("too big")
        es[p] = e
    deps = {p: {q for q in syms_of(e) & allprev} for p, e in es.items()}
    left = set(es)
    while left:
        # smallest closed group
        best = None
        for p in left:
            g, st = set(), [p]
            while st:
                x = st.pop()
                if x in g:
                    continue
                g.add(x)
                st.extend(y for y in deps.get(x, ()) if y in es)
            if best is None or len(g) < len(best):
                best = g
        grp = best & left
        if len(best) > 4 or any(es[p].op == "opaque" or es[p].size > 6000 for p in best) or any(not (deps[p] <= set(es)) for p in best) or grp != best:
            for p in grp:
                final[p] = opaque("loop-carried value")
            left -= grp
            continue
        anon = {p: sym("acc:" + p.args[1], p.args[1]) for p in best}
        order = sorted(best, key=lambda p: (subst(es[p], anon).dig, init[p].dig, p.args[0]))
        k = 1 + max([0] + [int(x.args[0][3:].split(".")[0]) for p in best for x in syms_of(es[p]) if x.args[0].startswith("acc") and "." in x.args[0]])
        acc = {}
        for j, p in enumerate(order):
            a = sym(f"acc{k}.{j}" + ("!real" if p.args[0].endswith("!real") else ""), p.args[1])
            acc[p] = a
        body = mk("tuple", *[subst(es[p], acc) for p in order])
        i0 = mk("tuple", *[init[p] for p in order])

        def mkf(j):
            def f(h):
                w = fresh(lo, h)
                c = t.close("fold", w, lo, h, subst(body, {v: w}), i0)
                return mk("app", "fold_get", (c, num(j)), ())
            return f
        for j, p in enumerate(order):
            partial[p] = mkf(j)
            final[p] = partial[p](hi)
        left -= grp


def mkprev(loc, val, forced, dt=None):
    p = placeholder(val, dt)
    if loc in forced:
        k = forced[loc]
        q = sym(p.args[0], k)
        if k in ("vec", "mat") and rank(val) in (1, 2):
            t.PREV_INIT[q] = val
        if dt is not None:
            t.PREV_DT[q] = dt
        return q
    return p


def substp(x, m):
    return subst(x, m)


def loc_value(I, s, loc):
    if loc[0] == "c":
        return s.heap[loc[1]].val
    return I.tv(s, s.env[loc[1]])


def put(I, st, loc, val, E, holder, p):
    from .vflow import Ref, Cell
    if loc[0] == "c":
        c = st.heap[loc[1]]
        if val is c.val:
            return
        if loc[1] in st.shared:
            I.note_taint("shared object mutated in a loop")
        st.heap[loc[1]] = Cell(c.kind, val, c.dt)
        return
    nm = loc[1]
    cur = st.env.get(nm)
    if isinstance(cur, Ref):
        if E is not None and nm in holder and isinstance(E.env.get(nm), Ref) and E.env[nm].id == holder[nm]:
            # mutated in place, never rebound
            I.set_cell(st, cur, val) if I.tv(st, cur) is not val else None
            return
        st.env[nm] = I.box(st, val)
    else:
        st.env[nm] = I.box(st, val) if isinstance(val, T) else val


# ------------------------------------------------------------- closed forms
def closed(p, i0, e, v, lo, hi):
    """function h -> value after iterations lo..h-1, or None"""
    if e is p:
        return lambda h: i0
    if e.op == "opaque":
        return lambda h: e
    if p not in syms_of(e):
        def last(h):
            return ite(lt(lo, h), subst(e, {v: sub(h, ONE)}), i0)
        return last

    def over(op, body):
        def f(h):
            w = fresh(lo, h)
            return bind(op, w, lo, h, subst(body, {v: w}))
        return f
    # lists
    lp = list_parts(e, p)
    if lp is not None:
        if any(p in syms_of(x) for x in lp):
            return None
        body = lp_body(lp)

        def flist(h):
            w = fresh(lo, h)
            b = subst(body, {v: w})
            if b.op == "gpart" or b.op == "flat":
                parts = [bind("lcomp", w, lo, h, b)]
            else:
                parts = R.list_comp(w, lo, h, b)
            return mklist([spread(i0)] + parts)
        return flist
    # array stores
    st_ = store_entries(e, p)
    if st_ is not None:
        return closed_store(p, i0, st_, v, lo, hi)
    # booleans
    if p.args[1] == "bool":
        a = mk("truthy", p)
        tr, fa = boolval(e, p, a, TRUE), boolval(e, p, a, FALSE)
        if p not in syms_of(tr) and p not in syms_of(fa):
            i0t = truth(i0)
            if fa is FALSE:
                g = over("exists", b_not(tr))
                return lambda h: ite(i0t, b_not(g(h)), FALSE)
            if tr is TRUE:
                g = over("exists", fa)
                return lambda h: ite(i0t, TRUE, g(h))
            return None
    # constant flag of any kind
    fl = flag(e, p, v)
    if fl is not None:
        c, k = fl
        g = over("exists", c)
        return lambda h: ite(g(h), k, i0)
    if e.op in ("list", "upd", "tuple", "lam", "dict"):
        return None
    # sums
    try:
        d = sub(e, p)
    except t.TooBig:
        return None
    if p not in syms_of(d) and d.op != "opaque":
        g = over("bigsum", d)
        return lambda h: add(i0, g(h))
    # products
    if rank(p) == 0 or p.args[1] in ("scalar", "any"):
        try:
            m = subst(e, {p: ONE})
            if p not in syms_of(m) and mul(p, m) is e:
                g = over("bigprod", m)
                return lambda h: mul(i0, g(h))
        except t.TooBig:
            return None
    # matrix products
    r = factor_dot(e, p, True)
    if r is not None:
        g = over("bigdot", r)
        return lambda h: t.dot([i0, g(h)]) if i0 is not ONE else g(h)
    r = factor_dot(e, p, False)
    if r is not None:
        # p -> r @ p : product in reverse order
        def fleft(h):
            w = fresh(lo, h)
            g = bind("bigdot", w, lo, h, subst(r, {v: sub(sub(add(lo, h), ONE), w)}))
            return t.dot([g, i0])
        return fleft
    r = factor_kron(e, p)
    if r is not None:
        g = over("bigkron", r)
        return lambda h: t.kron2(i0, g(h))
    return None


def boolval(e, p, a, val):
    x = t.cof(e, a, val is TRUE)

    def leaf(y):
        if y is p:
            return val
        if y.op == "gamma":
            return ite(y.args[0], leaf(y.args[1]), leaf(y.args[2]))
        return y
    return leaf(x)


def flag(e, p, v):
    """e = K if c else p, K independent of the iteration"""
    leaves = set()

    def lv(x):
        if x.op == "gamma":
            lv(x.args[1])
            lv(x.args[2])
        else:
            leaves.add(x)
    lv(e)
    if len(leaves) != 2 or p not in leaves:
        return None
    k = [x for x in leaves if x is not p][0]
    if v in k.fvs or p in syms_of(k):
        return None

    def cond(x):
        if x.op == "gamma":
            return ite(x.args[0], cond(x.args[1]), cond(x.args[2]))
        return TRUE if x is k else FALSE
    c = cond(e)
    if p in syms_of(c):
        return None
    return c, k


def list_parts(e, p):
    if e is p:
        return []
    if e.op == "list" and e.args[0] and e.args[0][0].op == "spread" and e.args[0][0].args[0] is p:
        return list(e.args[0][1:])
    if e.op == "gamma":
        a, b = list_parts(e.args[1], p), list_parts(e.args[2], p)
        if a is None or b is None:
            return None
        c = e.args[0]
        if p in syms_of(c):
            return None
        if len(a) == 1 and len(b) == 1 and a[0].op == "item" and b[0].op == "item":
            return [item(ite(c, a[0].args[0], b[0].args[0]))]
        if len(a) == 1 and not b and a[0].op in ("item", "gitem"):
            return [mk("gitem", b_and(c, a[0].args[0]) if a[0].op == "gitem" else c, a[0].args[-1])]
        if len(b) == 1 and not a and b[0].op in ("item", "gitem"):
            return [mk("gitem", b_and(b_not(c), b[0].args[0]) if b[0].op == "gitem" else b_not(c), b[0].args[-1])]
        if a == b:
            return a
        if len(a) == 1 and len(b) == 1 and {a[0].op, b[0].op} <= {"gitem", "item"}:
            ca = a[0].args[0] if a[0].op == "gitem" else TRUE
            cb = b[0].args[0] if b[0].op == "gitem" else TRUE
            x = a[0].args[-1] if a[0].args[-1] is b[0].args[-1] else ite(c, a[0].args[-1], b[0].args[-1])
            return [mk("gitem", ite(c, ca, cb), x)]
        return None
    return None


def lp_body(lp):
    if len(lp) == 1 and lp[0].op == "item":
        return lp[0].args[0]
    if len(lp) == 1 and lp[0].op == "gitem":
        return t.gpart(lp[0].args[0], lp[0].args[1])
    return t.mkflat(lp)


def store_entries(e, p):
    if e is p:
        return []
    if e.op == "upd" and e.args[0] is p:
        return list(e.args[1])
    if e.op == "gamma":
        a, b = store_entries(e.args[1], p), store_entries(e.args[2], p)
        if a is None or b is None or p in syms_of(e.args[0]):
            # a guard that reads the array itself is not supported
            return None
        c = e.args[0]
        out = []
        keys_b = {x.args[0]: x for x in b if x.op == "set"}
        used = set()
        for x in a:
            if x.op != "set":
                return None
            if x.args[0] in keys_b:
                out.append(mk("set", x.args[0], ite(c, x.args[1], keys_b[x.args[0]].args[1])))
                used.add(x.args[0])
            else:
                out.append(mk("set", x.args[0], ite(c, x.args[1], index(p, x.args[0]))))
        for x in b:
            if x.op != "set":
                return None
            if x.args[0] not in used:
                out.append(mk("set", x.args[0], ite(c, index(p, x.args[0]), x.args[1])))
        if len(out) > 1:
            for i in range(len(out)):
                for j in range(i):
                    if not t._disjoint(out[i], out[j]):
                        return None
        return out
    return None


def _lin(i, v):
    """index i runs through distinct values with v"""
    if i.op == "slice":
        lo, hi, s = i.args
        if s is not ONE or v not in lo.fvs:
            return False
        w = sub(hi, lo)
        if v in w.fvs:
            return False
        # lo = c*v + r with step >= width
        d = sub(subst(lo, {v: add(v, ONE)}), lo)
        return d is w or (v not in d.fvs and le(w, d) is TRUE)
    if v not in i.fvs:
        return False
    d = sub(subst(i, {v: add(v, ONE)}), i)
    return d.op == "num" and d is not ZERO or (v not in d.fvs and is_int(d) and t.prove_pos(d) is True)


def closed_store(p, i0, ents, v, lo, hi):
    single = len(ents) == 1
    for i in range(len(ents)):
        for j in range(i):
            if not t._disjoint(ents[i], ents[j]):
                # overlapping stores: only fine when nothing reads p
                if any(p in syms_of(x) for x in ents):
                    return None
    pre = []
    inj_all = True
    for e in ents:
        idx = t._open_all(e) if e.op == "ucomp" else e.args[0]
        if not any(_lin(i, v) for i in idx):
            inj_all = False
    if inj_all:
        def f(h):
            w = fresh(lo, h)
            out = []
            for e in ents:
                x = subst(e, {p: i0}) if p in syms_of(e) else e
                if not (isinstance(x, T) and x.op in ("set", "ucomp")):
                    return opaque("store")
                x = subst(x, {v: w})
                out.append(bind("ucomp", w, lo, h, x))
            return upd(i0, tuple(out))
        # reading p elsewhere than at the stored index would be wrong
        for e in ents:
            if p in syms_of(e) and not reads_only_own(e, p):
                return None
        return f
    if single and ents[0].op == "set":
        idx, val = ents[0].args
        if any(v in i.fvs or p in syms_of(i) for i in idx):
            return None
        if p not in syms_of(val):
            return lambda h: ite(lt(lo, h), upd(i0, (mk("set", idx, subst(val, {v: sub(h, ONE)})),)), i0)
        d = sub(val, index(p, idx))
        if p not in syms_of(d):
            def g(h):
                w = fresh(lo, h)
                return upd(i0, (mk("set", idx, add(index(i0, idx), bind("bigsum", w, lo, h, subst(d, {v: w})))),))
            return g
    if single and ents[0].op == "ucomp":
        # inner stores not depending on v: element-wise accumulation or last write
        vs = []
        x = ents[0]
        while x.op == "ucomp":
            u, a, b, x = t.open_binder(x)
            vs.append((u, a, b))
        idx, val = x.args
        if any(v in i.fvs or p in syms_of(i) for i in idx) or any(v in a.fvs or v in b.fvs for _, a, b in vs):
            return None
        if p in syms_of(val):
            d = sub(val, index(p, idx))
            if p in syms_of(d):
                return None

            def g2(h):
                w = fresh(lo, h)
                y = mk("set", idx, add(index(i0, idx), bind("bigsum", w, lo, h, subst(d, {v: w}))))
                for u, a, b in reversed(vs):
                    y = bind("ucomp", u, a, b, y)
                return upd(i0, (y,))
            return g2
    return None


def reads_only_own(e, p):
    x = e
    while x.op == "ucomp":
        u, a, b, x = t.open_binder(x)
        if p in syms_of(a) or p in syms_of(b):
            return False
    idx, val = x.args
    if any(p in syms_of(i) for i in idx):
        return False
    z = t.subst_term(val, index(p, idx), ZERO)
    return p not in syms_of(z)


def factor_dot(e, p, left):
    """e = p @ r (left) or r @ p"""
    if e.op == "gamma":
        if p in syms_of(e.args[0]):
            return None
        a, b = factor_dot(e.args[1], p, left), factor_dot(e.args[2], p, left)
        if a is None or b is None:
            return None
        return ite(e.args[0], a, b)
    if rank(p) not in (2, None):
        if not (rank(p) == 1 and not left):
            return None
    out = ZERO
    d0 = dim(p, 1 if left else 0)
    for m, c in monos(e).items():
        s, r = t._split_scalar(m)
        if any(p in syms_of(a) for a, _ in s) or len(r) != 1 or r[0][1] != F1:
            return None
        a = r[0][0]
        k = t._poly_raw({s: c})
        if a is p:
            out = add(out, mul(k, t.eye(d0)))
        elif a.op == "dot" and (a.args[0] if left else a.args[-1]) is p:
            rest = a.args[1:] if left else a.args[:-1]
            x = t.dot(list(rest))
            if p in syms_of(x):
                return None
            out = add(out, mul(k, x))
        else:
            return None
    return out


def factor_kron(e, p):
    if e.op == "gamma":
        if p in syms_of(e.args[0]):
            return None
        a, b = factor_kron(e.args[1], p), factor_kron(e.args[2], p)
        if a is None or b is None:
            return None
        return ite(e.args[0], a, b)
    out = ZERO
    for m, c in monos(e).items():
        s, r = t._split_scalar(m)
        if len(r) != 1 or r[0][1] != F1:
            if not r and False:
                pass
            return None
        a = r[0][0]
        if a.op != "kron" or a.args[0][0] != (p, ONE):
            return None
        x = t.kron_segs(list(a.args[0][1:]))
        if p in syms_of(x) or any(p in syms_of(b) for b, _ in s):
            return None
        out = add(out, mul(t._poly_raw({s: c}), x))
    return out


# ------------------------------------------------------------- while
def do_while(I, n, st, fr):
    I.loops += 1

    def find(I2, s, prev, fr2):
        c = I2.cond(n.test, s, fr2)
        return c, s

    # which name is the counter?
    from .vflow import Ref
    steps = {}
    for x in n.body:
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Sub)) \
                and isinstance(x.value, ast.Constant) and x.value.value == 1:
            steps.setdefault(x.target.id, []).append(1 if isinstance(x.op, ast.Add) else -1)
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp) \
                and isinstance(x.value.op, (ast.Add, ast.Sub)) and isinstance(x.value.left, ast.Name) and x.value.left.id == x.targets[0].id \
                and isinstance(x.value.right, ast.Constant) and x.value.right.value == 1:
            steps.setdefault(x.targets[0].id, []).append(1 if isinstance(x.value.op, ast.Add) else -1)
    tested = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
    cands = [k for k, v in steps.items() if len(v) == 1 and k in tested]
    cnt = {}
    for x in ast.walk(ast.Module(body=n.body, type_ignores=[])):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            cnt[x.id] = cnt.get(x.id, 0) + 1
    jumps = any(isinstance(x, ast.Continue) for s in n.body for x in ast.walk(s))
    for k in cands:
        if cnt.get(k) != 1 or jumps:
            continue
        i0 = st.env.get(k)
        if not isinstance(i0, T) or not is_int(i0):
            continue
        step = steps[k][0]
        p = fresh(None, None)
        s = st.copy()
        s.env[k] = p
        plain, aug = assigned(n.body)
        for nm in plain | aug:
            if nm != k and nm in s.env:
                s.env[nm] = opaque("loop")
        c = I.cond(n.test, s, fr)
        hi = solve_bound(c, p, step)
        if hi is None:
            continue
        if step == 1:
            v = fresh(i0, hi)
            lo, h, val = i0, hi, v
        else:
            # p = i0 - w,  w in [0, i0 - hi)
            lo, h = ZERO, sub(i0, hi)
            v = fresh(lo, h)
            val = sub(i0, v)

        class N:
            pass
        n2 = ast.While(test=n.test, body=n.body, orelse=n.orelse)
        ast.copy_location(n2, n)
        st2 = st

        def enter(s2):
            s2.env[k] = val

        # the counter itself is not loop-carried any more
        n3 = ast.For(target=ast.Name(id=k, ctx=ast.Store()), iter=n.test, body=[x for x in n.body], orelse=n.orelse)
        ast.copy_location(n3, n)
        outs = summarise(I, n3, v, lo, h, enter, st, fr)
        endv = ite(lt(lo, h), hi, i0)
        for kk, s3, _ in outs:
            if kk == "next":
                s3.env[k] = endv if not any(isinstance(x, ast.Break) for x in ast.walk(n)) else opaque("counter")
        return outs
    if isinstance(n.test, ast.Constant) and False:
        pass
    return havoc(I, n, st, fr)


def solve_bound(c, p, step):
    """c <=> p < H (step 1) or p > H (step -1); returns H"""
    negd = False
    a = c
    if c.op == "gamma" and c.args[1] is FALSE and c.args[2] is TRUE:
        a, negd = c.args[0], True
    if a.op != "lt":
        return None
    q = a.args[0]          # 0 < q
    if negd:
        q = sub(ONE, q)    # not(0<q) <=> 0 < 1-q for integers
    md = monos(q)
    k = md.get(((p, F1),))
    if k is None or k[1] != 0:
        return None
    rest = add(q, mul(num(-k[0]), p))
    if p in rest.fvs or not is_int(rest):
        return None
    if step == 1 and k[0] == -1:
        return rest
    if step == -1 and k[0] == 1:
        return t.neg(rest)
    return None


# ------------------------------------------------------------- comprehensions
def comprehension(I, gens, elt, st, fr):
    s = st.copy()
    s.env = dict(st.env)
    r = mklist(rec(I, gens, 0, elt, s, fr))
    st.heap, st.draws, st.shared = s.heap, s.draws, s.shared
    return r


def rec(I, gens, k, elt, s, fr):
    if k == len(gens):
        d0 = dict(s.draws)
        v = I.expr(elt, s, fr)
        I.share(s, v)
        return [item(I.tv(s, v))]
    g = gens[k]
    it = I.expr(g.iter, s, fr)
    d = domain(I, s, it)
    if d is None:
        return [item(opaque("comprehension domain"))]
    if d.items is not None:
        out = []
        for x in d.items:
            I.assign(g.target, I.box(s, x) if isinstance(x, T) else x, s, fr)
            c = TRUE
            for f in g.ifs:
                c = b_and(c, I.cond(f, s, fr))
            if c is FALSE:
                continue
            ps = rec(I, gens, k + 1, elt, s, fr)
            if c is TRUE:
                out.extend(ps)
            elif len(ps) == 1 and ps[0].op == "item":
                w = fresh(ZERO, ONE)
                out.append(t.close("lcomp", w, ZERO, ONE, t.gpart(c, ps[0].args[0])))
            else:
                out.append(item(opaque("guarded comprehension")))
        return out
    v = fresh(d.lo, d.hi)
    e = d.elem(v)
    lv0 = I.loop_vars
    I.loop_vars = lv0 + (v,)
    try:
        I.assign(g.target, I.box(s, e) if isinstance(e, T) else e, s, fr)
        c = TRUE
        for f in g.ifs:
            c = b_and(c, I.cond(f, s, fr))
        ps = rec(I, gens, k + 1, elt, s, fr)
    finally:
        I.loop_vars = lv0
    if c is FALSE:
        return []
    if len(ps) == 1 and ps[0].op == "item":
        b = ps[0].args[0]
        if c is not TRUE:
            return [bind("lcomp", v, d.lo, d.hi, t.gpart(c, b))]
        return R.list_comp(v, d.lo, d.hi, b)
    body = t.mkflat(ps)
    if c is not TRUE:
        return [item(opaque("guarded comprehension"))]
    return [bind("lcomp", v, d.lo, d.hi, body)]
