"""Symbolic execution of go/ssa functions (path-wise, big-step) and loop rules."""
import json, os, sys, traceback
from core import *
import core

sys.setrecursionlimit(20000)


class GoPanic(Exception):
    def __init__(self, msg):
        self.msg = msg


class CantUnroll(Exception):
    pass


class Outcome:
    """kind: 'ret' (val = tuple of results) or 'panic'"""
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val):
        self.st, self.kind, self.val = st, kind, val


class Item:
    __slots__ = ('st', 'env', 'blk', 'idx', 'pred', 'defers')

    def __init__(self, st, env, blk, idx=0, pred=None, defers=()):
        self.st, self.env, self.blk, self.idx, self.pred, self.defers = st, env, blk, idx, pred, defers

    def clone(self):
        return Item(self.st.clone(), dict(self.env), self.blk, self.idx, self.pred, self.defers)


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set([header])
        self.latches = set()


class Fn:
    def __init__(self, d):
        self.__dict__.update(d)
        self.d = d
        self.blocks = d.get('blocks') or []
        self.loops = None

    def loopinfo(self):
        if self.loops is not None:
            return self.loops
        n = len(self.blocks)
        reach = set()
        order = []

        def dfs(b):
            stack = [(b, iter(self.blocks[b]['succs']))]
            reach.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in reach:
                        reach.add(s)
                        stack.append((s, iter(self.blocks[s]['succs'])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        order.reverse()
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [p for p in self.blocks[b]['preds'] if p in reach]
                d = set.intersection(*[dom[p] for p in ps]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in order:
            for s in self.blocks[b]['succs']:
                if s in dom[b]:
                    L = loops.setdefault(s, Loop(s))
                    L.latches.add(b)
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in L.blocks:
                            continue
                        L.blocks.add(x)
                        stack.extend(p for p in self.blocks[x]['preds'] if p in reach)
        self.loops = loops
        return loops


INTRANGE = {'int': (-2 ** 63, 2 ** 63 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1),
            'rune': (-2 ** 31, 2 ** 31 - 1), 'int16': (-2 ** 15, 2 ** 15 - 1), 'int8': (-128, 127),
            'uint': (0, 2 ** 64 - 1), 'uint64': (0, 2 ** 64 - 1), 'uint32': (0, 2 ** 32 - 1),
            'uint16': (0, 65535), 'uint8': (0, 255), 'byte': (0, 255), 'uintptr': (0, 2 ** 64 - 1),
            'untyped int': (-2 ** 63, 2 ** 63 - 1), 'untyped rune': (-2 ** 31, 2 ** 31 - 1)}


class Program:
    def __init__(self, js):
        self.types = js['types']
        self.tid = {t['s']: i for i, t in enumerate(self.types)}
        self.funcs = {f['name']: Fn(f) for f in js['funcs']}
        self.methods = js['methods']
        self.globals = js['globals']
        self.models = {}       # function name -> model (assumed or verified contract)
        self.imodels = {}      # (iface type, method) -> model
        self.gvals = {}        # global name -> value factory
        self.nonnil = set()  # pointer types whose values inside slices and records are never nil (assumed contracts)
        self.opaque_types = set()
        self.sel_hook = None
        self.sha_pre = {}
        self.b64_pre = {}
        self.recv_hook = None
        self.sel = None         # (channels, blocking) of the select whose case the hooks are called for
        self.send_hook = None
        self.go_hook = None
        self.dropped = None     # names of the clauses of a shared unit that this check does not judge
        self.inpost = False
        self.noconc = set()
        self.mapshape = None
        self.map_transition = None
        self.unroll = {}       # function name -> max iterations with forking exits
        self.shapes = []       # (typename, factory) invariant shapes for loop-carried values
        self.intinv = []       # candidate invariants
        self.loop_hook = {}
        self.obls = {}
        self.prefix = ''
        self.assumed = {}
        self.inlined = set()
        self.depth = 0
        self.stackfn = []
        self.maxunroll = 40
        self.cutsub = None      # known parts of an opaque text at a position
        self.cat_extends = False    # a range of elements may be extended in a loop, not only moved
        self.nsumm = 0
        self.track_ranges = False
        self.mkhooks = {}
        self.zerohooks = {}
        self.panics_ok = False
        self.verbose = False
        self.buf = None

    def ghost_default(self, g):
        return Seq() if g == 'events' or g.startswith('gerrs') else False

    # ------------------------------------------------------------ types
    def T(self, t):
        return self.types[t]

    def under(self, t):
        while self.types[t]['k'] == 'named':
            t = self.types[t]['under']
        return t

    def U(self, t):
        return self.types[self.under(t)]

    def isbyte(self, t):
        u = self.U(t)
        return u['k'] == 'basic' and u['name'] in ('uint8', 'byte')

    def ety(self, t):
        """element type id for Sub pieces: None for bytes"""
        return None if self.isbyte(t) else t

    def intrange(self, t):
        u = self.U(t)
        if u['k'] == 'basic':
            return INTRANGE.get(u['name'])
        return None

    def isstring(self, t):
        u = self.U(t)
        return u['k'] == 'basic' and u['name'] in ('string', 'untyped string')

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, cond, msg=''):
        """prove cond on this path, then assume it"""
        if st.silent:
            if isinstance(cond, bool):
                if not cond:
                    raise Infeasible()
                return
            st.assume(cond)
            return
        name = self.prefix + name
        rec = self.obls.setdefault(name, {'name': name, 'paths': 0, 'failed': [], 'time': 0.0})
        t0 = time.time()
        if cond is True:
            ok, model = True, None
        else:
            c = simp(cond) if isz(cond) else cond
            if c is True:
                ok, model = True, None
            else:
                f = z3.BoolVal(False) if c is False else c
                r = SOLVER.check(st.pc, z3.Not(f), timeout=TIMEOUT * 3)
                ok = r == z3.unsat
                model = None
                if r == z3.sat:
                    model = SOLVER.model
                elif not ok and cvc5_unsat(st.pc, f):
                    ok = True
        rec['time'] += time.time() - t0
        rec['paths'] += 1
        if not ok:
            rec['failed'].append({'msg': msg, 'trace': list(st.trace[-12:]), 'cond': str(cond)[:2000],
                                  'model': model_str(model), 'status': 'counterexample' if model is not None else 'unknown'})
            if self.verbose:
                print('FAILED', name, msg, str(cond)[:300], st.trace[-6:])
                if os.environ.get('VPC'):
                    for f_ in st.pc: print('     ', str(f_).replace('\n',' ')[:200])
            if self.inpost and self.dropped and self.dropped(name):
                st.ghost['dropfail'] = True     # another property's clause: the clauses of this one are judged all the same
                return
            raise Infeasible()
        if isz(cond):
            st.fact(cond)
        return

    # ------------------------------------------------------------ symbolic values
    def mk(self, st, t, name, args):
        """the value of type t named by the application name(args)"""
        ty = self.T(t)
        h = self.mkhooks.get(ty['s'])
        if h:
            return h(st, t, name, args)
        if ty['s'] in self.opaque_types:
            return Opaque(uf(name, args, core.U), t)
        u = self.U(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n in ('bool', 'untyped bool'):
                return uf(name, args, BOOL)
            if n in ('string', 'untyped string'):
                return atom_seq(st, uf(name, args, core.U))
            if n in INTRANGE:
                v = uf(name, args, INT)
                lo, hi = INTRANGE[n]
                st.fact(z3.And(v >= lo, v <= hi))
                return v
            return Opaque(uf(name, args, core.U), t)
        if k == 'struct':
            return St(t, [self.mk(st, f['t'], name + '.' + f['n'], args) for f in u['fields']])
        if k == 'ptr':
            x = uf(name, args, core.U)
            if ty['s'] in self.nonnil:
                st.fact(x != NIL)
            return Ptr(SymObj(x, u['elem']))
        if k == 'array':
            n = u['len']
            a = uf(name, args, core.U)
            st.fact(uf('len', [a], INT) == n)
            return Seq([Sub(a, 0, n, self.ety(u['elem']))])
        if k == 'slice':
            a = uf(name, args, core.U)
            l = uf('len', [a], INT)
            st.fact(z3.And(l >= 0, l < 2 ** 48))
            nl = uf('nilslice', [a], BOOL)
            st.fact(z3.Implies(nl, l == 0))
            return SliceV(Ptr(SymObj(a, -1 - u['elem'])), 0, l, l, nl)
        if k == 'iface':
            return SymIface(uf(name, args, core.U), t)
        if k == 'map':
            a = uf(name, args, core.U)
            return MapRef(SymObj(a, t), t)
        if k == 'chan':
            return ChanV(uf(name, args, core.U), u['elem'])
        if k == 'func':
            return SymFn(uf(name, args, core.U))
        if k == 'tuple':
            return tuple(self.mk(st, e, name + '#%d' % i, args) for i, e in enumerate(u['elems']))
        return Opaque(uf(name, args, core.U), t)

    def fresh(self, st, t, name):
        n = '%s!%d' % (name, next(core._ctr))
        return self.mk(st, t, n, list(st.ctx))

    def symload(self, st, o, path):
        """default content of an input-region object at a path"""
        if o.ty < 0:  # backing array of a symbolic slice
            et = -1 - o.ty
            l = uf('len', [o.t], INT)
            s = Seq([Sub(o.t, 0, l, self.ety(et))])
            for x in path:
                s = st.sel(s, x)
            return s
        t = o.ty
        name = self.T(t)['s'].split('/')[-1]
        i = 0
        while i < len(path) and self.U(t)['k'] == 'struct':
            f = self.U(t)['fields'][path[i]]
            name += '.' + f['n']
            t = f['t']
            i += 1
        u = self.U(t)
        if u['k'] == 'map':
            pass
        v = self.mk(st, t, 'f:' + name, [o.t])
        for x in path[i:]:
            v = st.sel(v, x)
        return v

    def zero(self, st, t):
        u = self.U(t)
        k = u['k']
        zh = self.zerohooks.get(self.T(t)['s'])
        if zh:
            return zh()
        if self.T(t)['s'] in self.opaque_types:
            return Opaque(z3.Const('zero:' + self.T(t)['s'], core.U), t)
        if k == 'basic':
            n = u['name']
            if n in ('bool', 'untyped bool'):
                return False
            if n in ('string', 'untyped string'):
                return Seq()
            if n in INTRANGE:
                return 0
            return Opaque(z3.Const('zero:' + n, core.U), t)
        if k == 'struct':
            return St(t, [self.zero(st, f['t']) for f in u['fields']])
        if k == 'array':
            n = u['len']
            if n > 4096:
                raise Unsupported('large array')
            z = self.zero(st, u['elem'])
            return Seq([Lit([z] * n)])
        if k == 'slice':
            return SliceV(None, 0, 0, 0, True)
        if k == 'iface':
            return NILIF
        if k == 'map':
            return MapRef(None, t)
        if k == 'tuple':
            return tuple(self.zero(st, e) for e in u['elems'])
        return None

    def const(self, st, c):
        t = c['t']
        if c.get('nil'):
            return self.zero(st, t)
        if 'v' in c:
            return bool(c['v'])
        if 'str' in c:
            return Seq([Lit(c['str'])]) if c['str'] else Seq()
        if 'int' in c:
            return int(c['int'])
        return Opaque(z3.Const('float:' + c['float'], core.U), t)

    def val(self, it, r):
        if r is None:
            return None
        k = r['k']
        if k == 'local':
            return it.env[r['n']]
        if k == 'const':
            return self.const(it.st, r)
        if k == 'func':
            return Clo(r['n'])
        if k == 'builtin':
            return ('builtin', r['n'])
        if k == 'global':
            n = r['n']
            if n in self.gvals:
                p = self.gvals[n]
                return p(it.st) if callable(p) else p
            t = self.U(r['t'])['elem']
            return Ptr(SymObj(z3.Const('g:' + n, core.U), t))
        raise Unsupported('value ' + k)

    # ------------------------------------------------------------ ints
    def wrap(self, st, v, t):
        rg = self.intrange(t)
        if rg is None:
            raise Unsupported('wrap of non-int')
        lo, hi = rg
        if not isz(v):
            m = hi - lo + 1
            return (v - lo) % m + lo
        if st.entails(And(le(lo, v), le(v, hi))):
            return v
        m = hi - lo + 1
        if st.decide(And(le(lo, v), le(v, hi))):
            return v
        if st.decide(gt(v, hi)):
            w = sub(v, m)
            if st.entails(le(w, hi)):
                return w
        else:
            w = add(v, m)
            if st.entails(ge(w, lo)):
                return w
        return simp((v - lo) % m + lo)

    def const_of(self, st, v):
        """concrete value of v when the path determines it"""
        if not isz(v):
            return v
        if st.feasible() is False:
            raise Infeasible()
        r = SOLVER.check(st.pc, True)
        if r != z3.sat:
            return None
        m = SOLVER.model.eval(v, model_completion=True)
        if z3.is_int_value(m) and st.entails(v == m):
            return m.as_long()
        return None

    def pow2(self, st, n):
        c = self.const_of(st, n)
        if c is not None:
            return 2 ** c if c < 4096 else 0
        t = uf('pow2', [n], INT)
        st.fact(t > 0)
        return t

    def binop(self, st, op, x, y, xt, yt, rt):
        u = self.U(xt)
        k = u['k']
        if op in ('==', '!='):
            c = self.equal(st, x, y, xt, yt)
            c = simp(c) if isz(c) else c
            return c if op == '==' else Not(c)
        if k == 'basic' and self.isstring(xt):
            if op == '+':
                return x + y
            cx, cy = x.concrete(), y.concrete()
            if cx is not None and cy is not None:
                return {'<': cx < cy, '<=': cx <= cy, '>': cx > cy, '>=': cx >= cy}[op]
            tx, ty = reifyst(st, x), reifyst(st, y)
            lt_ = uf('strlt', [tx, ty], BOOL)
            gt_ = uf('strlt', [ty, tx], BOOL)
            return {'<': lt_, '>': gt_, '<=': Not(gt_), '>=': Not(lt_)}[op]
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return uf('op' + op, [term(x), term(y)], BOOL if op in ('<', '<=', '>', '>=') else core.U) \
                if op in ('<', '<=', '>', '>=') else Opaque(uf('op' + op, [term(x), term(y)], core.U), rt)
        if op == '<':
            return lt(x, y)
        if op == '<=':
            return le(x, y)
        if op == '>':
            return gt(x, y)
        if op == '>=':
            return ge(x, y)
        if isinstance(x, bool) or (isz(x) and z3.is_bool(x)):
            if op in ('&', '&&'):
                return And(x, y)
            if op in ('|', '||'):
                return Or(x, y)
        if op == '+':
            return self.wrap(st, add(x, y), rt)
        if op == '-':
            return self.wrap(st, sub(x, y), rt)
        if op == '*':
            return self.wrap(st, mul(x, y), rt)
        if op in ('/', '%'):
            if st.decide(eqt(y, 0)):
                raise GoPanic('integer divide by zero')
            if not isz(x) and not isz(y):
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return self.wrap(st, q, rt) if op == '/' else x - q * y
            xn = not st.decide(ge(x, 0))
            yn = not st.decide(ge(y, 0))
            ax = sub(0, x) if xn else x
            ay = sub(0, y) if yn else y
            if op == '/':
                q = idiv(ax, ay) if not isz(ay) and ay > 0 else simp(tz(ax) / tz(ay))
                return self.wrap(st, q if xn == yn else sub(0, q), rt)
            r = simp(tz(ax) % tz(ay))
            return sub(0, r) if xn else r
        if op == '<<':
            if st.decide(lt(y, 0)):
                raise GoPanic('negative shift amount')
            p = self.pow2(st, y)
            v = mul(x, p)
            lo, hi = self.intrange(rt)
            if not isz(v):
                return self.wrap(st, v, rt)
            if st.entails(And(le(lo, v), le(v, hi))):
                return v
            m = hi - lo + 1
            return simp((v - lo) % m + lo)
        if op == '>>':
            if st.decide(lt(y, 0)):
                raise GoPanic('negative shift amount')
            p = self.pow2(st, y)
            if not isz(x) and not isz(p):
                return x // p if p else 0
            return idiv(x, p) if not isz(p) and p > 0 else simp(tz(x) / tz(p))
        if op == '|':
            if not isz(x) and not isz(y):
                return x | y
            if (not isz(x) and x == 0):
                return y
            if (not isz(y) and y == 0):
                return x
            # disjoint bit ranges: one operand is a multiple of 2^k and the other below 2^k
            for a, b in ((x, y), (y, x)):
                for kk in (4, 8, 16, 24, 32, 40, 48, 56, 1, 2, 3, 5, 6, 7):
                    if st.entails(And(ge(b, 0), lt(b, 2 ** kk), ge(a, 0))) and \
                            st.entails(eqt(simp(tz(a) % (2 ** kk)), 0)):
                        return add(x, y)
            return self.ufint(st, 'or', x, y, rt)
        if op == '&':
            if not isz(x) and not isz(y):
                return x & y
            for a, b in ((x, y), (y, x)):
                if not isz(b) and b >= 0 and (b & (b + 1)) == 0:
                    return simp(tz(a) % (b + 1))
                if not isz(b) and b > 0 and (b & (b - 1)) == 0:
                    return simp(((tz(a) / b) % 2) * b)
            return self.ufint(st, 'and', x, y, rt)
        if op == '^':
            if not isz(x) and not isz(y):
                return self.wrap(st, x ^ y, rt)
            return self.ufint(st, 'xor', x, y, rt)
        if op == '&^':
            if not isz(x) and not isz(y):
                return x & ~y
            return self.ufint(st, 'andnot', x, y, rt)
        raise Unsupported('binop ' + op)

    def ufint(self, st, n, x, y, rt):
        v = uf('bit' + n, [x, y], INT)
        lo, hi = self.intrange(rt)
        st.fact(z3.And(v >= lo, v <= hi))
        return v

    def equal(self, st, x, y, xt, yt):
        for a, b in ((x, y), (y, x)):
            if isinstance(a, SliceV):
                if isinstance(b, SliceV) and b.base is None and b.nil is True:
                    if a.base is None:
                        return True
                    return a.nil
        if isinstance(x, (Iface, SymIface)) != isinstance(y, (Iface, SymIface)):
            # comparison of a concrete value with an interface
            if isinstance(x, (Iface, SymIface)):
                y = Iface(self.T(yt)['s'], y)
            else:
                x = Iface(self.T(xt)['s'], x)
        return val_eq(st, x, y)

    # ------------------------------------------------------------ slices
    def newslice(self, st, seq, nil=False, et=None):
        if nil:
            return SliceV(None, 0, 0, 0, True)
        o = st.alloc(seq, ('backing', et))
        l = seq.len
        return SliceV(Ptr(o), 0, l, l, False)

    def constslice(self, seq):
        l = seq.len
        return SliceV(Ptr(ConstObj(seq)), 0, l, l, False)

    def append(self, st, a, seq):
        """append(a, seq...)"""
        n = seq.len
        if not isz(n) and n == 0:
            return a
        old = st.content(a)
        new = old + seq
        o = st.alloc(new, ('backing', None))
        l = add(a.len, n)
        if new.p and isinstance(new.p[-1], Cat) and new.p[-1].fam.elen is None and eqt(l, new.len) is not True:
            # the pieces were joined: the same length, written as the length of the whole
            st.fact(tz(eqt(l, new.len)))
            l = new.len
        cap = l
        if a.base is not None and not (a.cap is not None and eqt(a.cap, a.len) is True) and \
                not isinstance(a.base.obj, ConstObj):
            if not st.entails(eqt(a.cap, a.len)):
                st.check_write(a.base, add(a.off, a.len), n, 'append in place')
                po = a.base.obj
                st.link[o] = st.link.get(o, ()) + (po,)
                st.link[po] = st.link.get(po, ()) + (o,)
                fr = st.frozen.get(po)
                if fr:
                    st.frozen[o] = tuple((p, sub(fo, a.off), fl) for p, fo, fl in fr)
                # memory behind len in the old backing is no longer known
                c = st.heap.get(po)
                if isinstance(c, Seq) and not a.base.path:
                    tail_off = add(a.off, a.len)
                    rest = sub(c.len, tail_off)
                    if not st.entails(eqt(rest, 0)):
                        ety = None
                        for p in c.p:
                            if isinstance(p, Sub):
                                ety = p.ety
                        try:
                            keep = split_at_e(st, c, tail_off)[0]
                            st.heap[po] = keep + st.fresh_seq('tail', rest, ety)
                        except Unsupported:
                            st.heap[po] = st.fresh_seq('tail', c.len, ety)
        if a.cap is not None:
            cap = st.fresh_int('cap')
            st.fact(cap >= tz(l))
        return SliceV(Ptr(o), 0, l, cap, False)

    def copy(self, st, dst, srcseq):
        n = dst.len
        m = srcseq.len
        if st.decide(le(n, m)):
            c = n
        else:
            c = m
        if (not isz(c) and c == 0) or dst.base is None:
            return c
        data = seq_slice(st, srcseq, 0, c)
        st.check_write(dst.base, dst.off, c, 'copy')
        cur = st.load(dst.base)
        st.store(dst.base, seq_splice(st, cur, dst.off, data))
        return c

    def slice_op(self, st, x, xt, lo, hi, mx):
        u = self.U(xt)
        if u['k'] == 'ptr':
            if isinstance(x, Ptr) and isinstance(x.obj, SymObj) and not x.path:
                self.nilcheck(st, x)
            n = self.U(u['elem'])['len']
            lo = 0 if lo is None else lo
            hi = n if hi is None else hi
            self.bounds(st, And(le(0, lo), le(lo, hi), le(hi, n)), 'slice bounds out of range')
            return SliceV(x, lo, sub(hi, lo), sub(n if mx is None else mx, lo), False)
        if u['k'] == 'slice':
            lo = 0 if lo is None else lo
            hi = x.len if hi is None else hi
            cap = x.cap if x.cap is not None else x.len
            m = cap if mx is None else mx
            self.bounds(st, And(le(0, lo), le(lo, hi), le(hi, m), le(m, cap)), 'slice bounds out of range')
            if x.base is None:
                return x
            if isinstance(x.base.obj, int) and not st.entails(le(hi, x.len)):
                # growing into spare capacity: content must be known there
                c = st.load(x.base)
                if not st.entails(le(add(x.off, hi), c.len)):
                    raise Unsupported('reslice beyond length')
            return SliceV(x.base, add(x.off, lo), sub(hi, lo), sub(m, lo), x.nil)
        if isinstance(x, Seq):
            lo = 0 if lo is None else lo
            hi = x.len if hi is None else hi
            self.bounds(st, And(le(0, lo), le(lo, hi), le(hi, x.len)), 'slice bounds out of range')
            return seq_slice(st, x, lo, hi)
        raise Unsupported('slice of ' + u['k'])

    def bounds(self, st, c, msg):
        if not st.decide(c):
            raise GoPanic(msg)

    def nilcheck(self, st, p):
        if p is None:
            raise GoPanic('nil pointer dereference')
        if isinstance(p, Ptr) and isinstance(p.obj, SymObj) and not p.path and p.obj not in st.heap:
            if p.obj.t.decl().name().startswith(('g:', 'nn:')):
                return
            if st.decide(p.obj.t == NIL):
                raise GoPanic('nil pointer dereference')
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r' % (p,))

    # ------------------------------------------------------------ maps
    def mapv(self, st, m):
        if m.obj is None:
            return MapV(None, (), None, None)
        v = st.heap.get(m.obj)
        if v is None:
            if isinstance(m.obj, SymObj):
                u = self.U(m.ty)
                v = MapV(m.obj.t, (), u['key'], u['elem'])
                st.heap[m.obj] = v
            else:
                raise Unsupported('map object')
        return v

    def map_lookup(self, st, m, key, vt):
        """(value, present) - forks on key equality"""
        mv = self.mapv(st, m)
        return self.mapv_lookup(st, mv, key, vt)

    def mapv_lookup(self, st, mv, key, vt):
        for k, v in reversed(mv.upd):
            if st.decide(simpb(val_eq(st, k, key))):
                if v is None:
                    return self.zero(st, vt), False
                return v, True
        if mv.base is None:
            return self.zero(st, vt), False
        kt = term(key) if not isinstance(key, Seq) else reifyst(st, key)
        has = uf('maphas', [mv.base, kt], BOOL)
        if not st.decide(has):
            for law in mv.laws:
                law(st, mv, key, None)
            return self.zero(st, vt), False
        v = self.mk(st, vt, 'mapget:' + self.T(vt)['s'], [mv.base, kt])
        for law in mv.laws:
            w = law(st, mv, key, v)
            if w is not None:
                v = w
        return v, True

    # ------------------------------------------------------------ running
    def explore(self, name, st, args, bindings=()):
        """all outcomes of calling function `name`"""
        fn = self.funcs.get(name)
        if fn is None or not fn.blocks:
            raise Unsupported('no body: ' + name)
        if self.depth > 40:
            raise Unsupported('call depth')
        if self.stackfn.count(name) > 1:
            raise Unsupported('recursion: ' + name)
        env = {}
        for p, a in zip(fn.params, args):
            env[p['n']] = a
        for p, a in zip(fn.freevars, bindings):
            env[p['n']] = a
        self.depth += 1
        self.stackfn.append(name)
        try:
            it = Item(st, env, 0)
            res = self.enter(fn, it, None)
        finally:
            self.depth -= 1
            self.stackfn.pop()
        outs = []
        for kind, x in res:
            if kind == 'ret':
                outs.append(Outcome(x[0], 'ret', x[1]))
            elif kind == 'panic':
                outs.append(Outcome(x[0], 'panic', x[1]))
            else:
                raise Unsupported('stray ' + kind)
        return outs

    def enter(self, fn, it, region):
        """run from `it` (positioned at a block start) staying inside region (Loop or None)"""
        results = []
        loops = fn.loopinfo()
        work = [it]
        first = True
        while work:
            it = work.pop()
            if it.idx == 0:
                b = it.blk
                if region is not None and not first:
                    if b == region.header:
                        results.append(('back', it))
                        continue
                    if b not in region.blocks:
                        results.append(('exit', it))
                        continue
                if b in loops and not (region is not None and b == region.header):
                    for kind, x in self.loop(fn, loops[b], it):
                        if kind == 'exit':
                            work.append(x)
                        else:
                            results.append((kind, x))
                    first = False
                    continue
            first = False
            self.block(fn, it, work, results, region)
            if len(work) + len(results) > 3000:
                raise Unsupported('path explosion in ' + fn.name)
        return results

    def phis(self, fn, it):
        """evaluate the phis of it.blk for entry from it.pred"""
        b = fn.blocks[it.blk]
        out = []
        for ins in b['instrs']:
            if ins['op'] != 'Phi':
                break
            i = b['preds'].index(it.pred)
            out.append((ins, self.val(it, ins['edges'][i])))
        return out

    def block(self, fn, it, work, results, region):
        b = fn.blocks[it.blk]
        ins = b['instrs']
        if it.idx == 0 and ins and ins[0]['op'] == 'Phi':
            ph = self.phis(fn, it)
            for i, v in ph:
                it.env[i['r']] = v
            it.idx = len(ph)
        while True:
            i = ins[it.idx]
            op = i['op']
            if 'pos' in i and (not it.st.trace or it.st.trace[-1] != i['pos']):
                it.st.trace = it.st.trace[-40:] + (i['pos'],)
            if op == 'Jump':
                it.pred, it.blk, it.idx = it.blk, b['succs'][0], 0
                work.append(it)
                return
            if op == 'If':
                c = self.val(it, i['x'])
                try:
                    t = it.st.decide(c)
                    if region is not None and getattr(region, 'nofork', False) and it.blk == region.header and \
                            not isinstance(c, bool) and not z3.is_true(c) and not z3.is_false(c):
                        region.symbolic += 1
                except Fork as f:
                    if region is not None and getattr(region, 'nofork', False) and it.blk == region.header and \
                            any(s not in region.blocks for s in b['succs']):
                        raise CantUnroll()
                    for t, cond in ((1, z3.Not(f.cond)), (0, f.cond)):
                        j = it.clone()
                        j.st.fact(simp(cond))
                        j.pred, j.blk, j.idx = it.blk, b['succs'][t], 0
                        work.append(j)
                    return
                it.pred, it.blk, it.idx = it.blk, b['succs'][0 if t else 1], 0
                work.append(it)
                return
            if op == 'Return':
                vals = tuple(self.val(it, r) for r in i['results'])
                results.append(('ret', (it.st, vals)))
                return
            pre = it
            cur = it.clone()
            try:
                outs = self.instr(fn, cur, i)
            except Fork as f:
                for cond in (z3.Not(f.cond), f.cond):
                    j = pre.clone()
                    j.st.fact(simp(cond))
                    work.append(j)
                return
            except GoPanic as p:
                results.append(('panic', (cur.st, p.msg)))
                return
            except Infeasible:
                return
            if outs is None:
                it = cur
                it.idx += 1
                continue
            for o in outs:
                if isinstance(o, Item):
                    o.idx += 1
                    work.append(o)
                else:
                    results.append(o)
            return

    # outs: None = in place; list of Items / ('panic', ...) results
    def instr(self, fn, it, i):
        op = i['op']
        st = it.st
        env = it.env
        V = lambda r: self.val(it, r)
        if op == 'Alloc':
            t = self.U(i['t'])['elem']
            o = st.alloc(self.zero(st, t), t)
            env[i['r']] = Ptr(o)
        elif op == 'Store':
            p = V(i['addr'])
            self.nilcheck(st, p)
            if p.path and not isinstance(p.path[-1], str):
                st.check_write(Ptr(p.obj, ()), p.path[-1] if len(p.path) == 1 else 0, 1, 'store') \
                    if p.obj in st.frozen else None
            elif p.obj in st.frozen:
                st.check_write(p, 0, 1, 'store')
            st.store(p, V(i['x']))
        elif op == 'UnOp':
            x = V(i['x'])
            tok = i['tok']
            if tok == '*':
                self.nilcheck(st, x)
                env[i['r']] = st.load(x)
            elif tok == '!':
                env[i['r']] = Not(x)
            elif tok == '-':
                env[i['r']] = self.wrap(st, sub(0, x), i['t'])
            elif tok == '^':
                lo, hi = self.intrange(i['t'])
                env[i['r']] = sub(-1, x) if lo < 0 else sub(hi, x)
            elif tok == '<-':
                outs = []
                for s2, v, ok in self.chan_recv(st, x, i):
                    j = Item(s2, dict(env), it.blk, it.idx, it.pred, it.defers)
                    j.env[i['r']] = (v, ok) if i.get('commaok') else v
                    outs.append(j)
                return outs
            else:
                raise Unsupported('unop ' + tok)
        elif op == 'BinOp':
            env[i['r']] = self.binop(st, i['tok'], V(i['x']), V(i['y']), i['xt'], i['yt'], i['t'])
        elif op == 'FieldAddr':
            p = V(i['x'])
            self.nilcheck(st, p)
            env[i['r']] = Ptr(p.obj, p.path + (i['i'],))
        elif op == 'Field':
            env[i['r']] = V(i['x']).f[i['i']]
        elif op == 'IndexAddr':
            x, y = V(i['x']), V(i['y'])
            u = self.U(i['xt'])
            if u['k'] == 'ptr':
                n = self.U(u['elem'])['len']
                self.bounds(st, And(le(0, y), lt(y, n)), 'index out of range')
                env[i['r']] = Ptr(x.obj, x.path + (y,))
            else:
                self.bounds(st, And(le(0, y), lt(y, x.len)), 'index out of range')
                if x.base is None:
                    raise GoPanic('index out of range')
                env[i['r']] = Ptr(x.base.obj, x.base.path + (add(x.off, y),))
        elif op == 'Index':
            x, y = V(i['x']), V(i['y'])
            self.bounds(st, And(le(0, y), lt(y, x.len)), 'index out of range')
            env[i['r']] = seq_get(st, x, y)
        elif op == 'Lookup':
            x, y = V(i['x']), V(i['y'])
            if isinstance(x, Seq):
                self.bounds(st, And(le(0, y), lt(y, x.len)), 'index out of range')
                env[i['r']] = seq_get(st, x, y)
            else:
                vt = self.U(i['xt'])['elem']
                v, ok = self.map_lookup(st, x, y, vt)
                env[i['r']] = (v, ok) if i['commaok'] else v
        elif op == 'Slice':
            env[i['r']] = self.slice_op(st, V(i['x']), i['xt'], V(i['low']), V(i['high']), V(i['max']))
        elif op == 'Extract':
            env[i['r']] = V(i['x'])[i['i']]
        elif op in ('ChangeType',):
            env[i['r']] = V(i['x'])
        elif op == 'ChangeInterface':
            env[i['r']] = V(i['x'])
        elif op == 'Convert':
            env[i['r']] = self.convert(st, V(i['x']), i['xt'], i['t'])
        elif op == 'MakeInterface':
            v = V(i['x'])
            env[i['r']] = Iface(self.T(i['xt'])['s'], v)
        elif op == 'MakeClosure':
            env[i['r']] = Clo(i['fn']['n'], [V(b) for b in i['bindings']])
        elif op == 'MakeSlice':
            n, c = V(i['len']), V(i['cap'])
            self.bounds(st, And(le(0, n), le(n, c)), 'makeslice: len out of range')
            et = self.U(i['t'])['elem']
            if not isz(n):
                s = Seq([Lit([self.zero(st, et)] * n)]) if n else Seq()
            else:
                s = self.zeros(st, n, et)
            # spare capacity is zeroed memory that nobody else sees
            o = st.alloc(s, ('backing', et))
            env[i['r']] = SliceV(Ptr(o), 0, n, c, False)
        elif op == 'MakeMap':
            u = self.U(i['t'])
            o = st.alloc(MapV(None, (), u['key'], u['elem']), i['t'])
            env[i['r']] = MapRef(o, i['t'])
        elif op == 'MapUpdate':
            m = V(i['m'])
            if m.obj is None:
                raise GoPanic('assignment to entry in nil map')
            mv = self.mapv(st, m)
            key, v = V(i['key']), V(i['v'])
            self.map_set(st, m, mv, key, v)
        elif op == 'MakeChan':
            c = V(i['size'])
            self.bounds(st, le(0, c), 'makechan: size out of range')
            env[i['r']] = ChanV(st.fresh_u('chan'), self.U(i['t'])['elem'], c)
        elif op == 'Send':
            ch, x = V(i['chan']), V(i['x'])
            if ch is None:
                raise GoPanic('send on a nil channel blocks forever')
            self.chan_send(st, ch, x, i)
        elif op == 'Select':
            outs = []
            for s2, val in self.select(st, it, i):
                j = Item(s2, dict(env), it.blk, it.idx, it.pred, it.defers)
                j.env[i['r']] = val
                outs.append(j)
            return outs
        elif op == 'TypeAssert':
            return self.type_assert(it, i, V(i['x']))
        elif op == 'Range':
            x = V(i['x'])
            if isinstance(x, Seq):
                raise Unsupported('range over string')
            mv = self.mapv(st, x)
            o = st.alloc(0, 'iter')
            rt = st.fresh_u('range')
            env[i['r']] = Iter((mv, rt), Ptr(o))
            if self.track_ranges:
                st.ghost['ranges'] = st.ghost.get('ranges', ()) + ((mv, rt),)
        elif op == 'Next':
            itv = V(i['x'])
            mv, rt = itv.m
            k = st.load(itv.k)
            n = uf('maplen', [rt], INT)
            st.fact(n >= 0)
            if st.decide(lt(k, n)):
                kt, vt = mv.kt, mv.vt
                key = self.mk(st, kt, 'mapkey:' + self.T(kt)['s'], [rt, k])
                h = getattr(self, 'range_hook', None)
                if h:
                    h(self, st, mv, rt, k, key)
                v, ok = self.mapv_lookup(st, mv, key, vt)
                if not ok:
                    raise Infeasible()
                st.store(itv.k, add(k, 1))
                env[i['r']] = (True, key, v)
            else:
                env[i['r']] = (False, self.zero(st, mv.kt), self.zero(st, mv.vt))
        elif op == 'Panic':
            v = V(i['x'])
            raise GoPanic('explicit panic %r' % (v,))
        elif op == 'RunDefers':
            if not it.defers:
                return None
            items = [it]
            ds = it.defers
            it.defers = ()
            for (cal, args, di) in reversed(ds):
                nxt = []
                for x in items:
                    for s2, kind, r in self.call(x.st, cal, args, di):
                        if kind == 'ret':
                            nxt.append(Item(s2, dict(x.env), x.blk, x.idx, x.pred, ()))
                items = nxt
            return items
        elif op == 'Defer':
            cal, args = self.callee(it, i)
            it.defers = it.defers + ((cal, args, i),)
        elif op == 'Go':
            cal, args = self.callee(it, i)
            if self.go_hook:
                self.go_hook(self, st, cal, args, i)
        elif op == 'Call':
            cal, args = self.callee(it, i)
            outs = self.call(st, cal, args, i)
            if len(outs) == 1 and outs[0][1] == 'ret':
                it.st = outs[0][0]
                if 'r' in i:
                    env[i['r']] = self.retval(outs[0][2], i)
                return None
            res = []
            for s2, kind, r in outs:
                if kind == 'ret':
                    j = Item(s2, dict(env), it.blk, it.idx, it.pred, it.defers)
                    if 'r' in i:
                        j.env[i['r']] = self.retval(r, i)
                    res.append(j)
                else:
                    res.append(('panic', (s2, r)))
            return res
        elif op == 'DebugRef':
            pass
        elif op == 'SliceToArrayPointer':
            x = V(i['x'])
            n = self.U(self.U(i['t'])['elem'])['len']
            self.bounds(st, le(n, x.len), 'slice to array: length too short')
            # only supported as an immediate load of the content
            o = st.alloc(seq_slice(st, st.content(x), 0, n), self.U(i['t'])['elem'])
            env[i['r']] = Ptr(o)
        else:
            raise Unsupported('instruction %s' % op)
        return None

    def map_set(self, st, m, mv, key, v):
        fr = st.frozen.get(m.obj)
        if fr:
            self.oblige(st, 'handoff', False, 'write to a map that was handed off')
        upd = [(k, x) for k, x in mv.upd if not same_const(k, key)]
        st.heap[m.obj] = MapV(mv.base, tuple(upd) + ((key, v),), mv.kt, mv.vt, mv.laws)

    def zeros(self, st, n, et):
        a = uf('zeros:%s' % self.T(et)['s'], [n], core.U)
        st.fact(uf('len', [a], INT) == n)
        if self.isbyte(et):
            k = z3.Int('kz')
            f = Family(k, [(True, (Lit([0]),))], [], elen=1, name='zeros')
            f._key = 'zeros'
            return Seq([Cat(f, 0, n)])
        k = z3.Int('kz')
        f = Family(k, [(True, (Lit([self.zero(st, et)]),))], [], elen=1, name='zeros:%s' % self.T(et)['s'])
        f._key = f.name
        return Seq([Cat(f, 0, n)])

    def retval(self, r, i):
        n = len(i['results'])
        if n == 1:
            return r[0] if isinstance(r, tuple) and len(r) == 1 else r
        return r

    def callee(self, it, i):
        args = [self.val(it, a) for a in i['args']]
        if 'invoke' in i:
            recv = self.val(it, i['recv'])
            return ('invoke', i['invoke'], recv, i['recvt']), args
        f = i['fn']
        return self.val(it, f), args

    # ------------------------------------------------------------ calls
    def call(self, st, cal, args, i):
        """list of (state, 'ret'|'panic', value)"""
        if isinstance(cal, tuple) and cal[0] == 'builtin':
            return self.builtin(st, cal[1], args, i)
        if isinstance(cal, tuple) and cal[0] == 'invoke':
            _, meth, recv, rt = cal
            if isinstance(recv, Iface):
                if recv.ty is None:
                    raise GoPanic('nil interface method call')
                name = self.methods.get(recv.ty, {}).get(meth)
                if name is None:
                    name = '(%s).%s' % (recv.ty, meth)
                return self.call_named(st, name, [recv.v] + args, i)
            its = self.T(rt)['s']
            if isinstance(recv, SymIface):
                if not (recv.t.decl().name().startswith('nn:')):
                    if st.decide(recv.t == NIL):
                        raise GoPanic('nil interface method call')
            m = self.imodels.get((its, meth)) or self.imodels.get(('*', meth))
            if m:
                self.note(its + '.' + meth)
                return norm(st, m(self, st, [recv] + args, i))
            return self.havoc_call(st, '%s.%s' % (its, meth), [recv] + args, i)
        if isinstance(cal, Clo):
            return self.call_named(st, cal.fn, args, i, cal.b)
        if cal is None:
            raise GoPanic('call of nil function')
        if isinstance(cal, SymFn):
            m = self.models.get('symfn')
            if m:
                return norm(st, m(self, st, cal, args, i))
            raise Unsupported('call of unknown function value')
        raise Unsupported('call of %r' % (cal,))

    def note(self, name):
        self.assumed[name] = self.assumed.get(name, 0) + 1

    def call_named(self, st, name, args, i, bindings=()):
        m = self.models.get(name)
        if m is None and '[' in name:
            m = self.models.get(name.split('[')[0])
        if m is not None:
            self.note(name)
            return norm(st, m(self, st, args, i))
        fn = self.funcs.get(name)
        if fn is not None and fn.blocks:
            self.inlined.add(name)
            return [(o.st, o.kind, o.val) for o in self.explore(name, st, args, bindings)]
        return self.havoc_call(st, name, args, i)

    PURE = ('log.', 'fmt.Print', 'fmt.Fprint', '(*log.', 'errors.', 'fmt.Errorf', 'time.')

    def havoc_call(self, st, name, args, i):
        """unknown dependency: any result; local memory passed by pointer becomes unknown"""
        self.note('havoc:' + name)
        if not name.startswith(self.PURE):
            for a in args:
                self.havoc_reach(st, a)
        rs = i['results'] if isinstance(i, dict) else []
        return [(st, 'ret', tuple(self.fresh(st, t, 'r:' + name.split('/')[-1]) for t in rs))]

    def havoc_reach(self, st, a):
        if isinstance(a, Iface):
            a = a.v
        if isinstance(a, Ptr) and isinstance(a.obj, int) and a.obj in st.heap:
            t = st.htype.get(a.obj)
            if isinstance(t, int):
                st.heap[a.obj] = self.fresh(st, t, 'hv')
            else:
                raise Unsupported('pointer to %r passed to unknown function' % (t,))
        elif isinstance(a, SliceV) and a.base is not None and isinstance(a.base.obj, int):
            c = st.load(a.base)
            ety = None
            for p in c.p:
                if isinstance(p, Sub):
                    ety = p.ety
            et = st.htype.get(a.base.obj)
            if isinstance(et, tuple) and et[1] is not None:
                ety = self.ety(et[1])
            st.store(a.base, st.fresh_seq('hvs', c.len, ety))

    def builtin(self, st, name, args, i):
        R = lambda v: [(st, 'ret', (v,))]
        if name == 'len':
            x = args[0]
            if isinstance(x, (Seq, SliceV)):
                return R(x.len)
            if isinstance(x, MapRef):
                mv = self.mapv(st, x)
                if mv.base is None and not mv.upd:
                    return R(0)
                v = st.fresh_int('maplen', 0)
                if mv.upd:
                    st.fact(v >= 1)
                return R(v)
            if isinstance(x, Ptr):
                return R(st.load(x).len)
            if isinstance(x, ChanV):
                return R(st.fresh_int('chanlen', 0))
            raise Unsupported('len')
        if name == 'cap':
            x = args[0]
            if isinstance(x, SliceV):
                return R(x.cap)
            if isinstance(x, ChanV) and x.cap is not None:
                return R(x.cap)
            raise Unsupported('cap')
        if name == 'append':
            a, b = args
            s = b if isinstance(b, Seq) else st.content(b)
            return R(self.append(st, a, s))
        if name == 'copy':
            a, b = args
            s = b if isinstance(b, Seq) else st.content(b)
            return R(self.copy(st, a, s))
        if name in ('print', 'println'):
            return [(st, 'ret', ())]
        if name == 'delete':
            mv = self.mapv(st, args[0])
            self.map_set(st, args[0], mv, args[1], None)
            return [(st, 'ret', ())]
        if name == 'close':
            if self.send_hook:
                self.send_hook(self, st, args[0], 'close', i)
            return [(st, 'ret', ())]
        if name in ('min', 'max'):
            v = args[0]
            for a in args[1:]:
                c = st.decide(le(v, a))
                v = (v if c else a) if name == 'min' else (a if c else v)
            return R(v)
        if name == 'ssa:wrapnilchk':
            self.nilcheck(st, args[0])
            return R(args[0])
        if name == 'recover':
            return R(NILIF)
        if name == 'clear':
            x = args[0]
            if isinstance(x, MapRef) and x.obj is not None:
                mv = self.mapv(st, x)
                st.heap[x.obj] = MapV(None, (), mv.kt, mv.vt, mv.laws)
                return [(st, 'ret', ())]
        raise Unsupported('builtin ' + name)

    def convert(self, st, v, ft, tt):
        fu, tu = self.U(ft), self.U(tt)
        if isinstance(v, Opaque):
            if self.intrange(tt):
                return self.mk(st, tt, 'conv:%s' % tu['name'], [v.t])
            return Opaque(uf('conv:' + self.T(tt)['s'], [v.t], core.U), tt)
        if self.intrange(ft) and self.intrange(tt):
            lo, hi = self.intrange(tt)
            flo, fhi = self.intrange(ft)
            if lo <= flo and fhi <= hi:
                return v
            m = hi - lo + 1
            if not isz(v):
                return (v - lo) % m + lo
            if st.entails(And(le(lo, v), le(v, hi))):
                return v
            if m <= 2 ** 32:
                return simp((v - lo) % m + lo)
            if st.decide(And(le(lo, v), le(v, hi))):
                return v
            w = sub(v, m) if flo >= 0 else add(v, m)
            return w
        if self.isstring(tt) and fu['k'] == 'slice':
            return st.content(v)
        if tu['k'] == 'slice' and self.isstring(ft):
            return self.newslice(st, v, et=tu['elem'])
        if self.isstring(tt) and self.isstring(ft):
            return v
        if self.isstring(tt) and self.intrange(ft):
            if not isz(v) and 0 <= v < 128:
                return Seq([Lit([v])])
            raise Unsupported('rune to string')
        if self.intrange(ft):
            return Opaque(uf('conv:' + self.T(tt)['s'], [v], core.U), tt)
        if isinstance(v, Ptr) or v is None:
            return v
        return v

    def type_assert(self, it, i, x):
        st = it.st
        at = i['at']
        ats = self.T(at)['s']
        isif = self.U(at)['k'] == 'iface'
        if isinstance(x, Iface):
            if x.ty is None:
                ok = False
            elif isif:
                need = self.U(at).get('methods', [])
                have = self.methods.get(x.ty, {})
                ok = all(m in have for m in need)
                if not ok and not have:
                    raise Unsupported('assert to interface')
            else:
                ok = x.ty == ats
            v = x if isif else (x.v if ok else None)
        else:
            c = uf('typeis:' + ats, [x.t], BOOL)
            st.fact(z3.Implies(c, x.t != NIL))
            if isif:
                v = x
            ok = st.decide(c)
            if ok and not isif:
                v = self.mk(st, at, 'dyn:' + ats, [x.t])
                if isinstance(v, Ptr) and isinstance(v.obj, SymObj):
                    st.fact(v.obj.t != NIL)
        if i['commaok']:
            it.env[i['r']] = (v if ok else self.zero(st, at), ok)
        else:
            if not ok:
                raise GoPanic('interface conversion')
            it.env[i['r']] = v
        return None

    # ------------------------------------------------------------ channels
    def chan_recv(self, st, ch, i):
        if self.recv_hook:
            r = self.recv_hook(self, st, ch, i)
            if r is not None:
                return r
        v = self.fresh(st, ch.elem, 'recv')
        return [(st, v, st.fresh_bool('ok'))]

    def chan_send(self, st, ch, x, i):
        if self.send_hook:
            self.send_hook(self, st, ch, x, i)

    def select(self, st, it, i):
        outs = []
        states = i['states']
        nrecv = sum(1 for s in states if s['dir'] == 2)
        self.sel = (tuple(c.t for c in (self.val(it, s['chan']) for s in states) if c is not None), bool(i['blocking']))
        for n, s in enumerate(states):
            s2 = st.clone()
            ch = self.val(it, s['chan'])
            zeros = [self.zero(s2, self.U(x['ct'])['elem']) for x in states if x['dir'] == 2]
            ri = sum(1 for x in states[:n] if x['dir'] == 2)
            if ch is None:
                continue
            if s['dir'] == 2:
                for s3, v, ok in self.chan_recv(s2, ch, i):
                    z = list(zeros)
                    z[ri] = v
                    outs.append((s3, (n, ok) + tuple(z)))
            else:
                self.chan_send(s2, ch, self.val(it, s['send']), i)
                outs.append((s2, (n, False) + tuple(zeros)))
        if not i['blocking']:
            s2 = st.clone()
            zeros = [self.zero(s2, self.U(x['ct'])['elem']) for x in states if x['dir'] == 2]
            if self.send_hook:
                s2.ghost['nonblocking'] = True
            outs.append((s2, (-1, False) + tuple(zeros)))
        self.sel = None
        return outs

    # ------------------------------------------------------------ loops
    def loop(self, fn, L, it):
        import loops
        return loops.run_loop(self, fn, L, it)

    def split(self, st, cond):
        """[(state, truth)] for the feasible truth values of cond"""
        if not isz(cond):
            return [(st, bool(cond))]
        res = []
        for tv, c in ((True, cond), (False, z3.Not(cond))):
            s = st.clone()
            try:
                s.fact(simp(c))
            except Infeasible:
                continue
            if s.feasible():
                res.append((s, tv))
        return res

    def all_paths(self, st, f):
        """run f(st) on every case split; f may Fork"""
        work = [st]
        res = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 500:
                raise Unsupported('case explosion')
            c = s.clone()
            try:
                res.append(f(c))
            except Fork as k:
                for cond in (z3.Not(k.cond), k.cond):
                    d = s.clone()
                    d.fact(simp(cond))
                    work.append(d)
            except Infeasible:
                pass
        return res


def simpb(c):
    return simp(c) if isz(c) else c


def same_const(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return reify(a).eq(reify(b))
    return False


def norm(st, r):
    """models may return a value/tuple, or a list of (state, kind, value)"""
    if isinstance(r, list):
        return [x if len(x) == 3 else (x[0], 'ret', x[1]) for x in r]
    if not isinstance(r, tuple):
        r = (r,)
    return [(st, 'ret', r)]


def model_str(m):
    if m is None:
        return ''
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append('%s=%s' % (d.name(), m[d]))
    return '; '.join(sorted(out))[:4000]


CVC5_CALLS = [0, 0]


def cvc5_unsat(pc, goal):
    """second back end for obligations z3 leaves undecided"""
    import subprocess
    CVC5_CALLS[0] += 1
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        r = subprocess.run(['cvc5', '--tlimit=8000', '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=12)
        ok = r.stdout.strip().startswith('unsat')
        if ok:
            CVC5_CALLS[1] += 1
        return ok
    except Exception:
        return False


def load(path):
    with open(path) as f:
        return Program(json.load(f))
