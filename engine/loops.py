"""Loop rules: complete unrolling when the trip count is determined, otherwise an
inductive argument: loop-carried locations are generalised, recurrences and
invariant templates are guessed, and only what is inductive is kept."""
import z3
from core import *
import core
from exec import CantUnroll, Item, Outcome, GoPanic


class Region:
    def __init__(self, L, nofork=False):
        self.header = L.header
        self.blocks = L.blocks
        self.nofork = False
        self.symbolic = 0
        self.guardfork = nofork


class Hyp:
    """for all 0 <= j < hi: facts(j)"""
    def __init__(self, b, hi, facts, alts):
        self.b, self.hi, self.facts, self.alts = b, hi, facts, alts

    def at(self, st, j):
        sb = [(self.b, tz(j))]
        fs = [subst(f, sb) for f in self.facts]
        if len(self.alts) > 1:
            fs.append(Or(*[And(*[subst(f, sb) for f in a]) for a in self.alts]))
        f = Implies(And(le(0, j), lt(j, self.hi)), And(*fs))
        if f is not True:
            st.fact(tz(f))


class DropHyp:
    pass


def save_obls(P):
    return {n: (r['paths'], len(r['failed']), r['time']) for n, r in P.obls.items()}


def restore_obls(P, s):
    for n in list(P.obls):
        if n not in s:
            del P.obls[n]
        else:
            r = P.obls[n]
            r['paths'], k, r['time'] = s[n]
            del r['failed'][k:]


def refs(P, name):
    """the functions of the repository a function mentions, in order"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'func' and 'n' in x and x['n'] in P.funcs and x['n'] not in out:
                out.append(x['n'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(P.funcs[name].blocks)
    return out


def moved(P, name):
    """the functions that hold the loops of a function that has none itself (its body was moved to a helper), nearest first"""
    f = P.funcs.get(name)
    if f is None or not f.blocks or f.loopinfo():
        return []
    out, todo, seen = [], [name], {name}
    while todo:
        for x in refs(P, todo.pop(0)):
            if x not in seen and x not in P.models and P.funcs[x].blocks:
                seen.add(x)
                todo.append(x)
                if P.funcs[x].loopinfo():
                    out.append(x)
    return out


def holder(P, name):
    """where the loop of a function is"""
    return (moved(P, name) or [name])[0]


def run_loop(P, fn, L, it):
    lim = P.unroll.get(fn.name)
    if lim is None:
        lim = next((v for k, v in P.unroll.items() if k != '*' and fn.name in moved(P, k)), P.unroll.get('*'))
    if lim is not None:
        return unroll(P, fn, L, it, lim, False)
    hook = P.loop_hook.get(fn.name)
    if hook is None:
        hook = next((v for k, v in P.loop_hook.items() if holder(P, k) == fn.name), None)
    if hook:
        r = hook(P, fn, L, it)
        if r is not None:
            return r
    last = fn.blocks[L.header]['instrs'][-1]
    if last['op'] == 'If' and fn.name not in P.noconc:
        s = save_obls(P)
        try:
            return unroll(P, fn, L, it.clone(), P.maxunroll, True)
        except CantUnroll:
            restore_obls(P, s)
    P.nsumm += 1
    return summarise(P, fn, L, it)


def unroll(P, fn, L, it, n, nofork):
    R = Region(L, nofork)
    R.nofork = nofork
    items = [it]
    res = []
    n0 = P.nsumm
    for _ in range(n + 1):
        if nofork and (P.nsumm - n0 > 4 or R.symbolic > 8):
            raise CantUnroll()
        nxt = []
        for x in items:
            for kind, y in P.enter(fn, x, R):
                if kind == 'back':
                    nxt.append(y)
                else:
                    res.append((kind, y))
        items = nxt
        if not items:
            return res
        if nofork and len(items) > 64:
            raise CantUnroll()
    if nofork:
        raise CantUnroll()
    raise Unsupported('loop in %s exceeds %d iterations' % (fn.name, n))


# ------------------------------------------------------------------ leaves
class Leaf:
    def __init__(self, id, mode, v0, hv, **kw):
        self.id, self.mode, self.v0, self.hv = id, mode, v0, hv
        self.__dict__.update(kw)


class Ctx:
    def __init__(self, P, fn, L, k):
        self.P, self.fn, self.L, self.k = P, fn, L, k
        self.modes = {}
        self.fixed = set()
        self.tried = set()
        self.tried2 = set()
        self.fams = {}
        self.frozen = set()
        self.dead_inv = set()
        self.tries = {}
        self.leaves = []


def build(C, st, v0, t, id):
    """header value for a location with entry value v0"""
    P, k = C.P, C.k
    m = C.modes.get(id)
    if m is None and len(id) > 2 and id[0] in ('heap', 'ghost') and id not in C.tried and not isinstance(v0, St) and \
            id[-1] not in ('c', 'lo', 'hi', 'off'):
        m = C.modes[id] = 'same'
        C.tried.add(id)
    if isinstance(t, int) and not isinstance(t, bool) and P.T(t)['s'] in P.zerohooks:
        t = None
    if t is not None and not isinstance(t, tuple):
        for tn, fac in P.shapes:
            if P.T(t)['s'] == tn and m != 'noinv':
                r = fac(P, st, v0, k, id)
                if r is not None:
                    val, chk = r
                    C.leaves.append(Leaf(id, 'inv', v0, val, check=chk))
                    return val
    if m == 'same':
        C.leaves.append(Leaf(id, 'same', v0, v0))
        return v0
    if isinstance(v0, bool) or (isz(v0) and z3.is_bool(v0)):
        v = st.fresh_bool('lb')
        C.leaves.append(Leaf(id, 'havoc', v0, v))
        return v
    if isinstance(v0, int) or (isz(v0) and z3.is_int(v0)):
        if isinstance(m, tuple) and m[0] == 'lin':
            v = add(v0, mul(m[1], k))
            if t is not None and not isinstance(t, tuple) and P.intrange(t):
                lo, hi = P.intrange(t)
            C.leaves.append(Leaf(id, m, v0, v, ty=t))
            return v
        v = st.fresh_int('li')
        if t is not None and not isinstance(t, tuple) and P.intrange(t):
            lo, hi = P.intrange(t)
            st.fact(z3.And(v >= lo, v <= hi))
        C.leaves.append(Leaf(id, 'havoc', v0, v))
        return v
    if isinstance(v0, Seq):
        ety = None
        if t is not None:
            if isinstance(t, tuple):
                ety = P.ety(t[1]) if t[1] is not None else guess_ety(v0)
            else:
                u = P.U(t)
                if u['k'] in ('slice', 'array'):
                    ety = P.ety(u['elem'])
        else:
            ety = guess_ety(v0)
        if m is None and v0.p and isinstance(v0.p[0], Cat) and not v0.p[0].fam.name.startswith('zeros'):
            m = C.modes[id] = 'cat'
        if m == 'cat':
            c = v0.p[0]
            lo = build(C, st, c.lo, None, id + ('lo',))
            hi = build(C, st, c.hi, None, id + ('hi',)) if len(v0.p) == 1 else c.hi
            st.fact(tz(le(lo, hi)))
            hv = Seq((Cat(c.fam, lo, hi),) + v0.p[1:])
            if isz(hv.len):
                st.fact(hv.len >= 0)
            C.leaves.append(Leaf(id, 'cat', v0, hv, fam=c.fam, lo=lo, hi=hi))
            return hv
        if isinstance(m, tuple) and m[0] == 'app':
            f = C.fams[id]
            hv = v0 + Seq([Cat(f, 0, k)])
            if isz(hv.len):
                st.fact(hv.len >= 0)
            c = Cat(f, 0, k)
            if isz(c.len):
                st.fact(c.len >= 0)
            C.leaves.append(Leaf(id, m, v0, hv, fam=f))
            return hv
        if m == ('fill',):
            # element j set in iteration j; every iteration sets an element in bounds, so at most len were run
            f = C.fams[id]
            st.fact(tz(le(k, v0.len)))
            hv = Seq([Cat(f, 0, k)]) + seq_slice(st, v0, k, v0.len)
            C.leaves.append(Leaf(id, m, v0, hv, fam=f, rest=v0))
            return hv
        if m is None and len(v0.p) == 1 and isinstance(v0.p[0], Sub) and id[-1] == 'c' and isz(v0.p[0].len):
            m = C.modes[id] = 'suf'
        if m == 'suf':
            p0 = v0.p[0]
            end = add(p0.off, p0.len)
            off = build(C, st, p0.off, None, id + ('off',))
            st.fact(tz(And(le(p0.off, off), le(off, end))))
            hv = Seq([Sub(p0.atom, off, sub(end, off), p0.ety)])
            C.leaves.append(Leaf(id, 'suf', v0, hv, end=end, off=off))
            return hv
        fixedlen = (t is not None and (isinstance(t, tuple) or P.U(t)['k'] == 'array'))
        hv = st.fresh_seq('ls', v0.len if fixedlen else None, ety)
        C.leaves.append(Leaf(id, 'havoc', v0, hv, atom=True))
        return hv
    if isinstance(v0, SliceV):
        c0 = st.content(v0)
        et = P.U(t)['elem'] if (t is not None and not isinstance(t, tuple)) else None
        if et is not None:
            nid = id + ('c',)
            if C.modes.get(nid) is None and not c0.p:
                pass
            cv = build(C, st, c0, t, nid)
        else:
            cv = build(C, st, c0, None, id + ('c',))
        o = st.alloc(cv, ('backing', et))
        l = cv.len
        cap = st.fresh_int('cap')
        st.fact(cap >= tz(l))
        nil = False
        if v0.nil is not False:
            nil = st.fresh_bool('nil')
            st.fact(z3.Implies(nil, tz(eqt(l, 0))))
        sv = SliceV(Ptr(o), 0, l, cap, nil)
        if id in C.frozen or (v0.base is not None and v0.base.obj in st.frozen):
            st.frozen[o] = (((), None, None),)
        C.leaves.append(Leaf(id, 'slice', v0, sv, obj=o))
        return sv
    if isinstance(v0, St):
        u = P.U(v0.ty) if v0.ty is not None else None
        if t is not None and not isinstance(t, tuple) and P.U(t)['k'] == 'struct':
            ts = [f['t'] for f in P.U(t)['fields']]
        elif u is not None:
            ts = [f['t'] for f in u['fields']]
        else:
            ts = [None] * len(v0.f)
        return St(v0.ty, [build(C, st, x, ts[n], id + (n,)) for n, x in enumerate(v0.f)])
    if isinstance(v0, tuple):
        return tuple(build(C, st, x, None, id + (n,)) for n, x in enumerate(v0))
    if isinstance(v0, (Iface, SymIface)):
        v = SymIface(st.fresh_u('lif'), t)
        C.leaves.append(Leaf(id, 'havoc', v0, v))
        return v
    if isinstance(v0, MapV):
        fac = P.mapshape
        if fac is not None:
            r = fac(C, st, v0, id)
            if r is not None:
                return r
        v = MapV(st.fresh_u('lmap'), (), v0.kt, v0.vt, tuple(C.maplaws.get(id, ())))
        C.leaves.append(Leaf(id, 'map', v0, v))
        return v
    if t is not None and not isinstance(t, tuple):
        k_ = P.U(t)['k']
        if k_ in ('ptr', 'func', 'chan', 'basic') or isinstance(v0, Opaque):
            v = P.fresh(st, t, 'lv')
            C.leaves.append(Leaf(id, 'havoc', v0, v))
            return v
    if isinstance(v0, Opaque):
        v = Opaque(st.fresh_u('lo'), v0.ty)
        C.leaves.append(Leaf(id, 'havoc', v0, v))
        return v
    raise Unsupported('loop-carried value %r' % (v0,))


def guess_ety(s):
    for p in s.p:
        if isinstance(p, Sub):
            return p.ety
        if isinstance(p, Lit) and p.v and not (isinstance(p.v[0], int) or isz(p.v[0])):
            return -1
    return None


def getleaf(C, item, id, phivals):
    """value of a leaf location in a back-edge item"""
    kind, key = id[0], id[1]
    if kind == 'phi':
        v = phivals[key]
    elif kind == 'heap':
        v = item.st.heap.get(key)
    else:
        v = item.st.ghost.get(key)
    for x in id[2:]:
        if x == 'c':
            v = item.st.content(v)
        elif x in ('lo', 'hi', 'off'):
            return (v, x)
        elif isinstance(v, St):
            v = v.f[x]
        elif isinstance(v, tuple):
            v = v[x]
        else:
            raise Unsupported('leaf path %r' % (id,))
    return v


def nofork(f, default=None):
    try:
        return f()
    except (Fork, Unsupported, Infeasible):
        return default


def summarise(P, fn, L, it):
    S0 = it.st
    ph = P.phis(fn, it)
    phi0 = {i['r']: v for i, v in ph}
    phit = {i['r']: i['t'] for i, v in ph}
    cname = 'k!%d' % next(core._ctr)
    k = uf(cname, list(S0.ctx), INT)
    C = Ctx(P, fn, L, k)
    C.maplaws = {}
    C.S0 = S0
    for i, v in ph:
        if i.get('comment') == 'rangeindex' and v == -1:
            C.modes[('phi', i['r'])] = ('lin', 1)
            C.rangeloop = True
        elif i.get('comment') == 'rangeint.iter' and v == 0:
            C.modes[('phi', i['r'])] = ('lin', 1)
            C.rangeint = P.intrange(i['t'])[1] - 1      # an iteration of a loop over the integers below n has k < n
    mods = []           # ordered ('heap', o) / ('ghost', key)
    frozen_extra = {}
    prev = []           # facts of iteration k-1
    live_inv = None
    R = Region(L)
    phase = 0
    for npass in range(40):
        final = False
        r = one_pass(P, fn, L, it, C, R, phi0, phit, mods, frozen_extra, prev, silent=True)
        changed, st_header, backs, results = r
        if not changed:
            if phase == 0:
                # facts about the previous iteration become available
                common, alts = iteration_facts(C, st_header, backs)
                prev = common
                prevalts = alts
                C.prev = (common, alts)
                phase = 1
                C.dead_inv = set(x for x in C.dead_inv if x[0] == 'base')
                continue
            break
    else:
        raise Unsupported('loop in %s does not stabilise' % fn.name)
    # final pass: obligations are recorded, real families are installed
    changed, st_header, backs, results = one_pass(P, fn, L, it, C, R, phi0, phit, mods, frozen_extra, prev, silent=S0.silent, final=True)
    out = []
    common, alts = iteration_facts(C, st_header, backs)
    b = z3.Int('j!%d' % next(core._ctr))
    sb = [(k, b)]
    hyp = Hyp(b, k, [subst(f, sb) for f in common], [[subst(f, sb) for f in a] for a in alts])
    for id, f in C.fams.items():
        install(C, id, f, backs, hyp, b)
    for kind, x in results:
        if kind == 'back':
            continue
        st = x.st if isinstance(x, Item) else x[0]
        st.ctx = S0.ctx
        st.ghost['hyps'] = tuple(st.ghost.get('hyps', ())) + (hyp,)
        out.append((kind, x))
    return out


def iteration_facts(C, st_header, backs):
    n0 = C.pcbase
    deltas = []
    for x, pv in backs:
        deltas.append(x.st.pc[n0:])
    if not deltas:
        return [z3.BoolVal(False)], []
    ids = set(f.get_id() for f in deltas[0])
    for d in deltas[1:]:
        ids &= set(f.get_id() for f in d)
    common = [f for f in deltas[0] if f.get_id() in ids]
    alts = [[f for f in d if f.get_id() not in ids] for d in deltas]
    return common, alts


def install(C, id, f, backs, hyp, b):
    """give the placeholder family of an accumulator its real body"""
    gs = C.apps.get(id, [])
    alts = []
    sb = [(C.k, b)]
    n = 0
    for (g, (x, pv)), guard in zip(gs, hyp.alts if hyp.alts else [[]] * len(gs)):
        alts.append((And(*guard) if len(gs) > 1 else True, tuple(subst(p, sb) for p in g)))
    keys = set(repr([reify_piece(p).sexpr() for p in ps]) for _, ps in alts)
    if len(keys) == 1:
        alts = [(True, alts[0][1])]
    else:
        # merge alternatives with equal bodies
        merged = {}
        for gd, ps in alts:
            kk = repr([reify_piece(p).sexpr() for p in ps])
            if kk in merged:
                merged[kk] = (Or(merged[kk][0], gd), ps)
            else:
                merged[kk] = (gd, ps)
        alts = list(merged.values())
    f.k = b
    f.alts = alts or [(True, ())]
    f.facts = list(hyp.facts)
    if f.elen is None and len(alts) == 1:
        f.nonempty = True
    f._fc = None


def one_pass(P, fn, L, it, C, R, phi0, phit, mods, frozen_extra, prev, silent, final=False):
    S0, k = it.st, C.k
    st = S0.clone()
    st.silent = silent
    st.ctx = S0.ctx + (k,)
    C.pcbase = len(st.pc)
    C.leaves = []
    C.apps = {}
    st.fact(k >= 0)
    if getattr(C, 'rangeloop', False):
        st.fact(k <= 2 ** 62)   # a range loop runs at most len times
    if getattr(C, 'rangeint', None) is not None:
        st.fact(k <= C.rangeint)
    if prev or getattr(C, 'prev', None):
        common, alts = C.prev
        sb = [(k, k - 1)]
        fs = [z3.substitute(f, *sb) for f in common]
        if len(alts) > 1:
            fs.append(z3.Or([z3.And([z3.substitute(f, *sb) for f in a]) if a else z3.BoolVal(True) for a in alts]))
        if fs:
            st.fact(z3.Implies(k > 0, z3.And(fs)))
    C.pcbase = len(st.pc)
    env = dict(it.env)
    hphi = {}
    for r, v in phi0.items():
        hphi[r] = build(C, st, v, phit[r], ('phi', r))
    for m in mods:
        kind, key = m
        if kind == 'heap':
            v0 = S0.heap.get(key)
            if v0 is None:
                v0 = P.symload(S0, key, ())
                if isinstance(v0, MapRef):
                    v0 = P.mapv(S0, MapRef(key, key.ty))
            t = S0.htype.get(key)
            if t is None and isinstance(key, SymObj) and key.ty >= 0:
                t = key.ty
            if isinstance(t, str):
                t = None
            st.heap[key] = build(C, st, v0, t, m)
        else:
            st.ghost[key] = build(C, st, S0.ghost.get(key), None, m)
    for o, fr in frozen_extra.items():
        st.frozen[o] = fr
    # candidate invariants over integers
    invs = []
    for lf in C.leaves:
        if lf.mode == 'havoc' and (isz(lf.hv) and z3.is_int(lf.hv)):
            for nm, rel in (('ge0', lambda v, v0: ge(v, v0)), ('le0', lambda v, v0: le(v, v0))):
                invs.append((('leaf', lf.id, nm), [lf.id], (lambda vals, kk, rel=rel, lf=lf: rel(vals[lf.id], lf.v0))))
    for gen in P.intinv:
        invs.extend(gen(C, st, S0))
    hvals = {lf.id: lf.hv for lf in C.leaves}
    v0vals = {lf.id: lf.v0 for lf in C.leaves}
    act = []
    for name, ids, f in invs:
        if name in C.dead_inv or ('base', name) in C.dead_inv:
            continue
        b0 = nofork(lambda: S0.entails(f(v0vals, 0)), False)
        if not b0:
            C.dead_inv.add(('base', name))
            continue
        act.append((name, ids, f))
        c = f(hvals, k)
        if c is not True:
            st.fact(tz(c))
    # entry check of invariant shapes
    changed = False
    for lf in C.leaves:
        if lf.mode == 'inv':
            s0 = S0.clone()
            s0.silent = True
            ok = nofork(lambda: s0.entails(lf.check(s0, lf.v0, 0)), False)
            if not ok:
                C.modes[lf.id] = 'noinv'
                changed = True
    if changed:
        return True, st, [], []
    for r, v in hphi.items():
        env[r] = v
    nphi = len(hphi)
    x = Item(st, env, L.header, nphi, None, it.defers)
    header_heap = dict(st.heap)
    header_ghost = dict(st.ghost)
    header_frozen = dict(st.frozen)
    saved = None
    results = enter_header(P, fn, x, R)
    backs = []
    for kind, y in results:
        if kind == 'back':
            if SOLVER.check(y.st.pc, True) == z3.unsat:
                continue
            pv = {i['r']: v for i, v in P.phis(fn, y)}
            backs.append((y, pv))
    # modified memory
    for y, pv in backs:
        for o, v in y.st.heap.items():
            if o in header_heap:
                if header_heap[o] is not v and ('heap', o) not in mods and (o in S0.heap or isinstance(o, SymObj)):
                    mods.append(('heap', o))
                    changed = True
            elif isinstance(o, SymObj):
                if isinstance(v, MapV) and not v.upd:
                    continue
                if ('heap', o) not in mods:
                    mods.append(('heap', o))
                changed = True
        for g, v in y.st.ghost.items():
            if g == 'hyps':
                continue
            if g not in header_ghost:
                S0.ghost.setdefault(g, P.ghost_default(g))
                if ('ghost', g) not in mods:
                    mods.append(('ghost', g))
                changed = True
            elif header_ghost[g] is not v and ('ghost', g) not in mods:
                mods.append(('ghost', g))
                changed = True
        for o, fr in y.st.frozen.items():
            if (o in S0.heap or isinstance(o, SymObj)) and header_frozen.get(o) != fr and o not in frozen_extra:
                frozen_extra[o] = (((), None, None),)
                changed = True
    if changed:
        return True, st, backs, results
    # transitions
    guessed = False
    for turn in (0, 1, 2):
        # a guessed shape is judged only once no other location's shape was guessed in the same pass, and stated
        # invariants only once every other location's shape is stable
        for lf in C.leaves:
            if turn != (2 if lf.mode in ('inv', 'map') else 1 if lf.mode == 'cat' or isinstance(lf.mode, tuple) else 0) or \
                    (turn == 2 and changed) or (turn == 1 and guessed):
                continue
            bv = []
            for y, pv in backs:
                bv.append((y, getleaf(C, y, lf.id, pv)))
            if transition(C, lf, bv, final):
                changed = True
                guessed = guessed or turn == 0 and isinstance(C.modes.get(lf.id), tuple)
    for name, ids, f in () if changed else act:
        for y, pv in backs:
            vals = nofork(lambda: {i: leafval(C, y, i, pv) for i in hvals}, None)
            ok = vals is not None and nofork(lambda: y.st.entails(f(vals, add(k, 1))), False)
            if not ok:
                C.dead_inv.add(name)
                changed = True
                break
    if final and changed:
        raise Unsupported('loop in %s: final pass differs' % fn.name)
    return changed, st, backs, results


def leafval(C, y, id, pv):
    v = getleaf(C, y, id, pv)
    if isinstance(v, tuple) and len(v) == 2 and v[1] in ('lo', 'hi', 'off') and isinstance(v[0], Seq):
        r = cat_bound(C, y, [l for l in C.leaves if l.id == id][0], v)
        if r is None:
            raise Unsupported('cat')
        return r
    return v


def enter_header(P, fn, x, R):
    """run from inside the header block (after its phis)"""
    results = []
    work = []
    P.block(fn, x, work, results, R)
    for it in work:
        if it.blk == R.header and (it.idx != 0 or it.pred == x.pred):
            # a case split inside the header block
            results.extend(enter_header(P, fn, it, R))
        elif it.idx == 0 and it.blk == R.header:
            results.append(('back', it))
        elif it.blk not in R.blocks:
            results.append(('exit', it))
        else:
            results.extend(enter_inner(P, fn, it, R))
    return results


def enter_inner(P, fn, it, R):
    # the item is at the start of a block inside the region that is not the header
    results = []
    loops = fn.loopinfo()
    work = [it]
    while work:
        it = work.pop()
        if it.idx == 0:
            b = it.blk
            if b == R.header:
                results.append(('back', it))
                continue
            if b not in R.blocks:
                results.append(('exit', it))
                continue
            if b in loops:
                for kind, x in P.loop(fn, loops[b], it):
                    if kind == 'exit':
                        work.append(x)
                    else:
                        results.append((kind, x))
                continue
        P.block(fn, it, work, results, R)
        if len(work) + len(results) > 3000:
            raise Unsupported('path explosion in ' + fn.name)
    return results


def transition(C, lf, bv, final):
    """compare back-edge values with the assumed shape; True when the shape changed"""
    k, id, m = C.k, lf.id, lf.mode
    S = lambda: None
    if not bv:
        if isinstance(m, tuple) and m[0] in ('app', 'fill'):
            C.apps[id] = []
        return False
    k1 = add(k, 1)
    if m == 'inv':
        for y, v in bv:
            ok = nofork(lambda: y.st.entails(lf.check(y.st, v, k1)), False)
            if not ok:
                C.modes[id] = 'noinv'
                return True
        return False
    if m == 'same':
        for y, v in bv:
            ok = nofork(lambda: y.st.entails(ident_eq(y.st, v, lf.v0)), False)
            if not ok:
                if id in C.tried and id not in C.tried2:
                    C.tried2.add(id)
                    del C.modes[id]
                    return True
                C.modes[id] = 'havoc'
                C.fixed.add(id)
                return True
        return False
    if m == 'slice':
        for y, v in bv:
            if isinstance(v, SliceV) and v.base is not None and v.base.obj in y.st.frozen and id not in C.frozen:
                C.frozen.add(id)
                return True
            if isinstance(v, SliceV) and v.nil is not False and lf.v0.nil is False:
                if not y.st.entails(Not(v.nil)):
                    raise Unsupported('slice may become nil in loop')
        return False
    if isinstance(m, tuple) and m[0] == 'lin':
        for y, v in bv:
            if isinstance(v, tuple):
                v = nofork(lambda: cat_bound(C, y, lf, v))
            if v is None or not nofork(lambda: y.st.entails(eqt(v, add(lf.v0, mul(m[1], k1)))), False):
                C.modes[id] = 'havoc'
                C.fixed.add(id)
                return True
        return False
    if m == 'cat':
        for y, v in bv:
            rest = lf.v0.p[1:]
            if reify(Seq(v.p)).eq(reify(Seq(rest))):
                continue
            if v.p and isinstance(v.p[0], Cat) and samefam_sem(y.st, v.p[0].fam, lf.fam) and \
                    reify(Seq(v.p[1:])).eq(reify(Seq(rest))) and (not rest or eqt(v.p[0].hi, lf.hi) is True):
                continue
            C.modes[id] = 'havoc'
            if not C.P.cat_extends or not all(nofork(lambda: strip_prefix(y.st, v, lf.hv)) is not None for y, v in bv):
                C.fixed.add(id)     # neither another range of the same elements nor an extension
            return True
        return False
    if isinstance(m, tuple) and m[0] == 'app':
        gs = []
        for y, v in bv:
            g = strip_prefix(y.st, v, lf.hv)
            if g is None:
                C.modes[id] = 'havoc'
                C.fixed.add(id)
                return True
            g = tuple(detach(C, y.st, p) for p in g)
            if lf.fam.elen is not None and eqt(Seq(g).len, lf.fam.elen) is not True:
                lf.fam.elen = None
                return True
            gs.append((g, (y, None)))
        C.apps[id] = gs
        return False
    if m == ('fill',):
        gs = []
        for y, v in bv:
            x = nofork(lambda: filled(y.st, v, Seq([Cat(lf.fam, 0, k)]), k))
            ok = x is not None and nofork(lambda: y.st.entails(And(lt(k, lf.rest.len), seq_eq(
                y.st, Seq(x[1]), seq_slice(y.st, lf.rest, k1, lf.rest.len)))), False)
            if not ok:
                C.modes[id] = 'havoc'
                C.fixed.add(id)
                return True
            gs.append(((detach(C, y.st, x[0]),), (y, None)))
        C.apps[id] = gs
        return False
    if m == 'suf':
        p0 = lf.v0.p[0]
        for y, v in bv:
            if not v.p:
                continue
            q = v.p[0]
            if len(v.p) == 1 and isinstance(q, Sub) and q.atom.eq(p0.atom) and \
                    (eqt(add(q.off, q.len), lf.end) is True or nofork(lambda: y.st.entails(eqt(add(q.off, q.len), lf.end)), False)):
                continue
            C.modes[id] = 'havoc'
            return True
        return False
    if m == 'map':
        return C.P.map_transition(C, lf, bv) if C.P.map_transition else False
    # havoc: try to strengthen
    if id in C.fixed:
        return False
    if all(nofork(lambda: trivially_same(y, v, lf.hv), False) for y, v in bv):
        C.modes[id] = 'same'
        return True
    hv = lf.hv
    if isz(hv) and z3.is_int(hv):
        ds = set()
        for y, v in bv:
            if isinstance(v, tuple):
                v = nofork(lambda: cat_bound(C, y, lf, v))
            if v is None or isinstance(v, bool):
                ds.add(None)
                continue
            d = sub(v, hv)
            ds.add(d if not isz(d) else None)
        if len(ds) == 1 and None not in ds:
            C.modes[id] = ('lin', ds.pop())
            return True
        C.fixed.add(id)
        return False
    if isinstance(hv, Seq) and getattr(lf, 'atom', False):
        gs = []
        for y, v in bv:
            g = strip_prefix(y.st, v, hv)
            gs.append(g)
        if all(g is not None for g in gs) and any(Seq(g).p for g in gs):
            ls = set()
            for g in gs:
                l = Seq(g).len
                ls.add(l if not isz(l) else None)
            el = ls.pop() if len(ls) == 1 else None
            f = Family(z3.Int('j!%d' % next(core._ctr)), [(True, ())], [], elen=el)
            f._key = f.name
            f.args = tuple(C.S0.ctx)
            C.fams[id] = f
            C.modes[id] = ('app',)
            return True
    if isinstance(hv, Seq) and getattr(lf, 'atom', False) and bv:
        n = C.tries[id] = C.tries.get(id, 0) + 1
        if all(len(v.p) >= 2 and any(isinstance(q, Lit) and len(q.v) == 1 for q in v.p) for y, v in bv) and n < 8:
            if all(nofork(lambda: fillpat(y.st, v, hv, k)) for y, v in bv):
                f = Family(z3.Int('j!%d' % next(core._ctr)), [(True, ())], [], elen=1)
                f._key = f.name
                f.args = tuple(C.S0.ctx)
                C.fams[id] = f
                C.modes[id] = ('fill',)
                return True
            return False
    C.fixed.add(id)
    return False


def fillpat(st, v, hv, k):
    """v is hv with exactly element k replaced"""
    x = filled(st, v, seq_slice(st, hv, 0, k), k)
    return x is not None and st.entails(seq_eq(st, Seq(x[1]), seq_slice(st, hv, add(k, 1), hv.len)))


def filled(st, v, pre, k):
    """(element k, the rest) of v = pre ++ [element k] ++ rest"""
    g = strip_prefix(st, v, pre)
    if g is None and st.entails(eqt(pre.len, 0)):
        g = tuple(v.p)
    if g and isinstance(g[0], Lit) and len(g[0].v) == 1:
        return g[0], g[1:]
    return None


def ident_eq(st, a, b):
    """equality that also covers the identity of referenced memory"""
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        if a.base is None or b.base is None:
            return a.base is None and b.base is None
        return And(same_ptr(a.base, b.base), eqt(a.off, b.off), eqt(a.len, b.len), eqt(a.cap, b.cap))
    if isinstance(a, St) and isinstance(b, St):
        return And(*[ident_eq(st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return And(*[ident_eq(st, x, y) for x, y in zip(a, b)])
    return val_eq(st, a, b)


def cat_bound(C, y, lf, v):
    s, w = v
    par = [l for l in C.leaves if l.id == lf.id[:-1]][0]
    if not s.p or (w != 'off' and reify(s).eq(reify(Seq(par.v0.p[1:])))):
        # an empty remainder: the bounds meet
        return par.end if w == 'off' else par.hi
    if isinstance(s.p[0], Sub if w == 'off' else Cat):
        return getattr(s.p[0], w)
    return None


def trivially_same(y, v, hv):
    if v is hv:
        return True
    if isinstance(v, tuple):
        s, w = v
        if s.p and isinstance(s.p[0], Sub if w == 'off' else Cat):
            return eqt(getattr(s.p[0], w), hv) is True
        return False
    if (isinstance(v, (int, bool)) or isz(v)) and isz(hv):
        return eqt(v, hv) is True
    if isinstance(v, Seq) and isinstance(hv, Seq):
        return v.p == hv.p or (reify(v).eq(reify(hv)))
    return term(v).eq(term(hv))


def strip_prefix(st, v, pre):
    """pieces of v after the prefix `pre`, or None"""
    a, b = list(v.p), list(pre.p)
    while b:
        if not a:
            return None
        x, y = a[0], b[0]
        if x is y:
            a.pop(0)
            b.pop(0)
            continue
        if isinstance(x, Lit) and isinstance(y, Lit) and len(x.v) >= len(y.v) and \
                all(elem_eq(st, p, q) is True for p, q in zip(x.v, y.v)):
            if len(x.v) > len(y.v):
                a[0] = Lit(x.v[len(y.v):])
            else:
                a.pop(0)
            b.pop(0)
            continue
        if isinstance(x, Sub) and isinstance(y, Sub) and x.atom.eq(y.atom) and eqt(x.off, y.off) is True:
            if eqt(x.len, y.len) is True:
                a.pop(0)
                b.pop(0)
                continue
            if not st.entails(le(y.len, x.len)):
                return None
            a[0] = Sub(x.atom, add(x.off, y.len), sub(x.len, y.len), x.ety)
            b.pop(0)
            continue
        if isinstance(x, Enc) and isinstance(y, Enc) and x.kind == y.kind and x.len == y.len and eqt(x.v, y.v) is True:
            a.pop(0)
            b.pop(0)
            continue
        if isinstance(x, Cat) and isinstance(y, Cat) and samefam(x.fam, y.fam) and eqt(x.lo, y.lo) is True:
            if eqt(x.hi, y.hi) is True:
                a.pop(0)
                b.pop(0)
                continue
            if not st.entails(le(y.hi, x.hi)):
                return None
            a[0] = Cat(x.fam, y.hi, x.hi)
            b.pop(0)
            continue
        return None
    return tuple(a)


def detach(C, st, v):
    """replace references to memory allocated in this iteration by immutable copies"""
    if isinstance(v, Lit):
        return Lit([detach(C, st, x) for x in v.v])
    if isinstance(v, (Sub, Enc, Cat)):
        return v
    if isinstance(v, SliceV):
        if v.base is not None and isinstance(v.base.obj, int) and v.base.obj not in C.S0.heap:
            c = st.content(v)
            c = Seq([detach(C, st, p) for p in c.p])
            st.frozen[v.base.obj] = st.frozen.get(v.base.obj, ()) + ((v.base.path, v.off, v.len),)
            return SliceV(Ptr(ConstObj(c)), 0, v.len, v.len, v.nil)
        return v
    if isinstance(v, Ptr):
        if isinstance(v.obj, int) and v.obj not in C.S0.heap and not v.path:
            c = detach(C, st, st.heap[v.obj])
            st.frozen[v.obj] = (((), None, None),)
            return Ptr(ConstObj(c))
        return v
    if isinstance(v, St):
        return St(v.ty, [detach(C, st, x) for x in v.f])
    if isinstance(v, tuple):
        return tuple(detach(C, st, x) for x in v)
    if isinstance(v, Iface):
        return Iface(v.ty, detach(C, st, v.v)) if v.ty is not None else v
    return v


# ------------------------------------------------------------------ loops cut by a stated invariant
def cut_loop(P, fn, L, it, make, check):
    """a loop under a contract: `check(st, locs, when)` proves the invariant of the state at entry and at every back edge,
    `make(st, locs)` turns the entry state into an arbitrary one that satisfies it: it returns the values of the locations
    and the heap objects it made arbitrary. Locations are the phis of the header and the variables in memory the body
    changes ({'r', 't'}, value). Everything else must not be changed by the body."""
    mods = []
    for _ in range(12):
        s = save_obls(P)
        r = cut_pass(P, fn, L, it.clone(), make, check, mods)
        if r is not None:
            return r
        restore_obls(P, s)
    raise Unsupported('a loop under contract in %s does not stabilise' % fn.name)


def cut_pass(P, fn, L, it, make, check, mods):
    phi0 = P.phis(fn, it)
    cells = lambda st: [({'r': ('cell', o), 't': it.st.htype.get(o)}, st.heap[o]) for o in mods]
    P.all_paths(it.st.clone(), lambda s: check(s, phi0 + cells(s), 'entry'))
    x = it.clone()
    x.st.silent = it.st.silent
    vals, havoced = make(x.st, phi0 + cells(x.st))
    for i, v in phi0:
        x.env[i['r']] = vals[i['r']]
    for o in mods:
        x.st.heap[o] = vals[('cell', o)]
    x.idx = len(phi0)
    heap = dict(x.st.heap)
    R = Region(L)
    out = []
    backs = []
    for kind, y in enter_header(P, fn, x, R):
        if kind != 'back':
            out.append((kind, y))
            continue
        if SOLVER.check(y.st.pc, True) == z3.unsat:
            continue
        for o, v in y.st.heap.items():
            if o in heap and heap[o] is not v and o not in havoced and o not in mods:
                if isinstance(it.st.htype.get(o), int):
                    mods.append(o)
                    return None
                raise Unsupported('a loop under contract in %s changes %r' % (fn.name, o))
            if o not in heap and isinstance(o, SymObj) and not (isinstance(v, MapV) and not v.upd) and not havoced_sym(havoced, o):
                raise Unsupported('a loop under contract in %s changes %r' % (fn.name, o))
        backs.append(y)
    for y in backs:
        P.all_paths(y.st, lambda s: check(s, P.phis(fn, y) + cells(s), 'preserved'))
    return out


def havoced_sym(havoced, o):
    return any(isinstance(h, SymObj) and h == o for h in havoced)
