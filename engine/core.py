"""Values, sequences, symbolic state and solver interface of the verifier.

The verifier is a forward symbolic executor over go/ssa.  Integers are
mathematical (z3 Int) with exact Go wrap-around made explicit, bytes/strings/
slices/arrays are `Seq` values (lists of pieces), everything opaque is a term
of the single uninterpreted sort U.
"""
import itertools, z3, time, os

U = z3.DeclareSort('U')
INT = z3.IntSort()
BOOL = z3.BoolSort()
NIL = z3.Const('nil', U)


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ z3 helpers
def isz(x):
    return isinstance(x, z3.ExprRef)


_ufs = {}


def uf(name, args, rng):
    """application of the uninterpreted function `name`"""
    args = [tz(a) for a in args]
    if not args:
        return z3.Const(name, rng)
    key = (name, tuple(a.sort().name() for a in args), rng.name())
    f = _ufs.get(key)
    if f is None:
        nm = name if not any(k[0] == name for k in _ufs) else name + '/' + ','.join(s[0] for s in key[1])
        f = z3.Function(nm, *[a.sort() for a in args], rng)
        _ufs[key] = f
    return f(*args)


def tz(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isz(x):
        return x
    raise Unsupported('to z3: %r' % (x,))


def simp(x):
    """normalise to a Python int/bool when concrete"""
    if not isz(x):
        return x
    x = z3.simplify(x, som=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def add(*xs):
    c = 0
    r = None
    for x in xs:
        if isz(x):
            r = x if r is None else r + x
        else:
            c += int(x)
    if r is None:
        return c
    return simp(r + c) if c else simp(r)


def sub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    return simp(tz(a) - tz(b))


def mul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    return simp(tz(a) * tz(b))


def idiv(a, c):
    """floor division by a positive constant; nested divisions are merged"""
    if not isz(a):
        return a // c
    if c == 1:
        return a
    if z3.is_app_of(a, z3.Z3_OP_IDIV) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
        return simp(a.arg(0) / (a.arg(1).as_long() * c))
    return simp(a / c)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def eqt(a, b):
    """equality of two int/bool/U terms"""
    if not isz(a) and not isz(b):
        return a == b
    a, b = tz(a), tz(b)
    if a.eq(b):
        return True
    return simp(a == b)


def le(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    return simp(tz(a) <= tz(b))


def lt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    return simp(tz(a) < tz(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return simp(z3.If(c, tz(a), tz(b)))


# ------------------------------------------------------------------ solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.cache = 0


STATS = Stats()
TIMEOUT = int(os.environ.get('VERIF_Z3_TIMEOUT', '4000'))


class SolverStack:
    def __init__(self):
        self.reset()

    def reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', TIMEOUT)
        self.stack = []
        self.cache = {}

    def sync(self, pc):
        n = 0
        m = min(len(self.stack), len(pc))
        while n < m and self.stack[n] is pc[n]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.s.pop(k)
            del self.stack[n:]
        for f in pc[n:]:
            self.s.push()
            self.s.add(f)
            self.stack.append(f)

    def check(self, pc, extra, timeout=None):
        """sat / unsat / unknown of pc and extra"""
        STATS.queries += 1
        t = time.time()
        self.sync(pc)
        self.s.push()
        try:
            if extra is not True:
                self.s.add(extra)
            if timeout:
                self.s.set('timeout', timeout)
            r = self.s.check()
            if r == z3.sat:
                self.model = self.s.model()
        finally:
            if timeout:
                self.s.set('timeout', TIMEOUT)
            self.s.pop()
            STATS.time += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        return r


SOLVER = SolverStack()


# ------------------------------------------------------------------ sequences
class Piece:
    pass


class Lit(Piece):
    """a fixed number of element values"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    @property
    def len(self):
        return len(self.v)

    def __repr__(self):
        if all(isinstance(x, int) for x in self.v):
            try:
                return 'b' + repr(bytes(self.v).decode('ascii'))
            except Exception:
                pass
        return 'Lit%r' % (list(self.v),)


class Sub(Piece):
    """atom[off:off+len] of an opaque sequence; ety is the element type id or None for bytes"""
    __slots__ = ('atom', 'off', 'len', 'ety')

    def __init__(self, atom, off, ln, ety=None):
        self.atom, self.off, self.len, self.ety = atom, off, ln, ety

    def __repr__(self):
        return '%s[%s:+%s]' % (self.atom, self.off, self.len)


class Enc(Piece):
    """n-byte big/little endian encoding of the integer v, 0 <= v < 256^n"""
    __slots__ = ('kind', 'len', 'v')

    def __init__(self, kind, n, v):
        self.kind, self.len, self.v = kind, n, v

    def __repr__(self):
        return 'Enc(%s%d,%s)' % (self.kind, self.len, self.v)

    def byte(self, i):
        e = self.len - 1 - i if self.kind == 'be' else i
        if not isz(self.v):
            return (self.v >> (8 * e)) & 255
        return simp(tz(idiv(self.v, 256 ** e)) % 256)


class Family:
    """the body of a comprehension: for index k, the pieces of alternative a when its guard holds."""
    def __init__(self, k, alts, facts, elen=None, name=None, nonempty=False, step=1):
        self.k = k          # z3 Int const bound
        self.alts = alts    # list of (guard formula, tuple of pieces)
        self.facts = facts  # formulas over k true of every executed iteration
        self.elen = elen    # constant or function of index: length of each instance
        self.name = name or ('fam!%d' % next(_ctr))
        self.nonempty = nonempty
        self._key = None    # template of a named family
        self.args = ()      # what a named family's body depends on besides its name
        self._sig = None

    def sig(self):
        """(template, arguments): families with the same template and arguments have the same body at every index.
        Maximal subterms that do not depend on the index are arguments, so that congruence and substitution see them."""
        if self._key is not None:
            return self._key, self.args
        if self._sig is None:
            b = z3.Int('@idx')
            sb = [(self.k, b)]
            args, pos, memo, dep = [], {}, {}, {}

            def depends(t):
                i = t.get_id()
                r = dep.get(i)
                if r is None:
                    r = dep[i] = t.eq(b) or any(depends(c) for c in t.children())
                return r

            def absr(t):
                i = t.get_id()
                r = memo.get(i)
                if r is not None:
                    return r
                if not depends(t):
                    if z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t) or t.num_args() == 0 and \
                            t.decl().name().startswith('lit"'):
                        r = t
                    else:
                        if i not in pos:
                            pos[i] = len(args)
                            args.append(t)
                        r = z3.Const('@a%d' % pos[i], t.sort())
                elif t.num_args() == 0:
                    r = t
                else:
                    r = t.decl()(*[absr(c) for c in t.children()])
                memo[i] = r
                return r
            keep = []
            key = []
            for g, ps in self.alts:
                ts = [tz(g)] + [reify_piece(p) for p in ps]
                ts = [z3.substitute(t, *sb) for t in ts]
                keep.append(ts)
                key.append([absr(t).sexpr() for t in ts])
            self._sig = (repr(key), tuple(args))
        return self._sig

    def key(self):
        k, a = self.sig()
        return (k,) + tuple(x.sexpr() for x in a)

    def inst(self, st, j):
        """pieces at index j (a concrete alternative; may Fork)"""
        sb = [(self.k, tz(j))]
        st.assume_facts([subst(f, sb) for f in self.facts])
        if len(self.alts) == 1:
            g, ps = self.alts[0]
            return tuple(subst(p, sb) for p in ps)
        for n, (g, ps) in enumerate(self.alts):
            g = subst(g, sb)
            last = n == len(self.alts) - 1
            if last and g is False:
                raise Infeasible()
            if last and isz(g):
                # an executed iteration took one of the alternatives
                st.assume_facts([g])
            if last or st.decide(simp(g) if isz(g) else g):
                return tuple(subst(p, sb) for p in ps)

    def bytes(self):
        ps = self.alts[0][1] if self.alts else ()
        return bool(ps) and isinstance(ps[0], Lit) and (isinstance(ps[0].v[0], int) or isz(ps[0].v[0]))

    def one(self):
        """every instance is exactly one element"""
        return self.elen == 1


class Cat(Piece):
    """concatenation of fam(j) for lo <= j < hi"""
    __slots__ = ('fam', 'lo', 'hi')

    def __init__(self, fam, lo, hi):
        self.fam, self.lo, self.hi = fam, lo, hi

    @property
    def len(self):
        if not isz(self.lo) and not isz(self.hi) and self.lo == self.hi:
            return 0
        if self.fam.elen is not None:
            return mul(sub(self.hi, self.lo), self.fam.elen)
        k, a = self.fam.sig()
        return uf('catlen:' + k, [self.lo, self.hi] + list(a), INT)

    def __repr__(self):
        return 'Cat(%s,%s..%s)' % (self.fam.name, self.lo, self.hi)


_ctr = itertools.count(1)


def piece_empty(p):
    l = p.len
    if isinstance(p, Cat):
        d = sub(p.hi, p.lo)
        return (not isz(d)) and d <= 0
    return (not isz(l)) and l == 0


class Seq:
    __slots__ = ('p',)

    def __init__(self, pieces=()):
        out = []
        for p in pieces:
            if piece_empty(p):
                continue
            if out:
                q = out[-1]
                if isinstance(p, Lit) and isinstance(q, Lit):
                    out[-1] = Lit(q.v + p.v)
                    continue
                if isinstance(p, Sub) and isinstance(q, Sub) and p.atom.eq(q.atom) and \
                        eqt(p.off, add(q.off, q.len)) is True:
                    out[-1] = Sub(q.atom, q.off, add(q.len, p.len), q.ety)
                    continue
                if isinstance(p, Cat) and isinstance(q, Cat) and samefam(p.fam, q.fam) and eqt(q.hi, p.lo) is True:
                    out[-1] = Cat(q.fam, q.lo, p.hi)
                    continue
            out.append(p)
        self.p = tuple(out)

    @property
    def len(self):
        return add(*[p.len for p in self.p]) if self.p else 0

    def __add__(self, o):
        return Seq(self.p + o.p)

    def __repr__(self):
        return 'Seq(' + ' ++ '.join(map(repr, self.p)) + ')'

    def concrete(self):
        if not self.p:
            return b''
        if len(self.p) == 1 and isinstance(self.p[0], Lit) and all(isinstance(x, int) for x in self.p[0].v):
            return bytes(self.p[0].v)
        return None


def samefam(a, b):
    return a is b or a.name == b.name or a.key() == b.key()


def lit(s):
    if isinstance(s, str):
        s = s.encode()
    return Seq([Lit(list(s))])


def unit(*vs):
    return Seq([Lit(vs)])


def atom_seq(st, atom, ety=None, ln=None):
    l = uf('len', [atom], INT) if ln is None else ln
    if isz(l):
        st.fact(l >= 0)
        st.fact(l < 2 ** 62)
    return Seq([Sub(atom, 0, l, ety)])


def be(n, v):
    if not isz(v):
        return Seq([Lit([(v >> (8 * (n - 1 - i))) & 255 for i in range(n)])])
    if n == 1:
        return Seq([Lit([v])])
    return Seq([Enc('be', n, v)])


def leb(n, v):
    if not isz(v):
        return Seq([Lit([(v >> (8 * i)) & 255 for i in range(n)])])
    if n == 1:
        return Seq([Lit([v])])
    return Seq([Enc('le', n, v)])


def enc_fact(st, p):
    """the bytes of an encoding are the digits of its value"""
    if isz(p.v):
        n = p.len
        st.fact(p.v == z3.Sum([tz(p.byte(i)) * 256 ** (n - 1 - i if p.kind == 'be' else i) for i in range(n)]))


def elem_of_atom(st, p, i):
    """element i (relative) of a Sub piece"""
    idx = add(p.off, i)
    if p.ety is None:
        t = uf('at', [p.atom, idx], INT)
        st.fact(z3.And(t >= 0, t <= 255))
        return t
    return st.prog.mk(st, p.ety, 'el', [p.atom, idx])


def seq_get(st, s, i, depth=0):
    """element at index i, bounds already established"""
    if depth > 200:
        raise Unsupported('element at a position that unfolding does not reach')
    cum = 0
    n = len(s.p)
    for k, p in enumerate(s.p):
        end = add(cum, p.len)
        if k == n - 1 or st.decide(lt(i, end)):
            r = sub(i, cum)
            if isinstance(p, Lit):
                if not isz(r):
                    return p.v[r]
                for q in range(len(p.v) - 1):
                    if st.decide(eqt(r, q)):
                        return p.v[q]
                return p.v[-1]
            if isinstance(p, Enc):
                enc_fact(st, p)
                if not isz(r):
                    return p.byte(r)
                for q in range(p.len - 1):
                    if st.decide(eqt(r, q)):
                        return p.byte(q)
                return p.byte(p.len - 1)
            if isinstance(p, Sub):
                return elem_of_atom(st, p, r)
            if isinstance(p, Cat):
                e = p.fam.elen
                if e == 1:
                    ps = p.fam.inst(st, add(p.lo, r))
                    return seq_get(st, Seq(ps), 0)
                if isinstance(e, int) and e > 0:
                    if not isz(r):
                        qd, rm = divmod(r, e)
                    else:
                        qd, rm = simp(r / e), simp(r % e)
                    ps = p.fam.inst(st, add(p.lo, qd))
                    return seq_get(st, Seq(ps), rm)
                if isz(r) and (p.fam.alts and all(len(Seq(ps).p) == 0 or not isz(Seq(ps).len) for _, ps in p.fam.alts)):
                    # it is an element of some instance
                    kk, aa = p.fam.sig()
                    j = uf('locate:' + kk, [tz(p.lo), tz(r)] + list(aa), INT)
                    st.fact(z3.And(tz(p.lo) <= j, j < tz(p.hi)))
                    ps = Seq(p.fam.inst(st, j))
                    m = ps.len
                    if not isz(m) and m == 0:
                        raise Infeasible()
                    if not isz(m) and m == 1:
                        return seq_get(st, ps, 0)
                    q = uf('within:' + kk, [tz(p.lo), tz(r)] + list(aa), INT)
                    st.fact(z3.And(q >= 0, q < tz(m)))
                    return seq_get(st, ps, q)
                # general: unfold from the front
                s2 = Seq(unfold_front(st, p) + s.p[k + 1:])
                return seq_get(st, s2, r, depth + 1)
        cum = end
    raise Unsupported('seq_get on empty')


def unfold_front(st, p):
    """Cat with lo<hi (known) -> inst(lo) ++ Cat(lo+1,hi)"""
    if not st.decide(lt(p.lo, p.hi)):
        return ()
    rest = Cat(p.fam, add(p.lo, 1), p.hi)
    ps = tuple(p.fam.inst(st, p.lo))
    if isz(p.len) and p.fam.elen is None:
        st.fact(p.len == tz(add(Seq(ps).len, rest.len)))
        st.fact(tz(rest.len) >= 0)
    return ps + (rest,)


def split_at(st, s, n):
    """(s[:n], s[n:]) with 0<=n<=len(s) established"""
    left = []
    cum = 0
    ps = list(s.p)
    k = 0
    while k < len(ps):
        p = ps[k]
        r = sub(n, cum)
        if not isz(r) and r <= 0 or eqt(r, 0) is True:
            return Seq(left), Seq(ps[k:])
        end = add(cum, p.len)
        if end is n or eqt(end, n) is True:
            left.append(p)
            return Seq(left), Seq(ps[k + 1:])
        if isinstance(p, Sub) and isz(r) and st.prog.cutsub:
            c = st.prog.cutsub(st, p, r)
            if c is not None:
                return Seq(tuple(left) + c[0].p), Seq(c[1].p + tuple(ps[k + 1:]))
        if k == len(ps) - 1 and isinstance(p, Sub):
            left.append(Sub(p.atom, p.off, r, p.ety))
            return Seq(left), Seq([Sub(p.atom, add(p.off, r), sub(p.len, r), p.ety)])
        inside = isinstance(p, Cat) and isinstance(p.fam.elen, int) and st.entails(le(n, end))
        if not inside and st.decide(le(end, n)):
            left.append(p)
            cum = end
            k += 1
            continue
        # n < end: split inside p (or exactly at its start)
        if isz(r) and st.entails(eqt(r, 0)):
            return Seq(left), Seq(ps[k:])
        if isinstance(p, Sub):
            if isz(r) and not st.decide(gt(r, 0)):
                return Seq(left), Seq(ps[k:])
            left.append(Sub(p.atom, p.off, r, p.ety))
            return Seq(left), Seq([Sub(p.atom, add(p.off, r), sub(p.len, r), p.ety)] + ps[k + 1:])
        if isinstance(p, (Lit, Enc)):
            if isz(r):
                for q in range(p.len):
                    if st.decide(eqt(r, q)):
                        r = q
                        break
                else:
                    raise Infeasible()
            if isinstance(p, Enc):
                enc_fact(st, p)
                p = Lit([p.byte(i) for i in range(p.len)])
            left.append(Lit(p.v[:r]))
            return Seq(left), Seq([Lit(p.v[r:])] + ps[k + 1:])
        if isinstance(p, Cat):
            e = p.fam.elen
            if isinstance(e, int) and e > 0:
                if not isz(r):
                    qd, rm = divmod(r, e)
                elif e == 1:
                    qd, rm = r, 0
                else:
                    qd, rm = lindiv(r, e)
                    if qd is None:
                        qd, rm = simp(r / e), simp(r % e)
                        if st.entails(eqt(rm, 0)):
                            rm = 0
                mid = add(p.lo, qd)
                if not isz(rm) and rm == 0:
                    if st.entails(eqt(mid, p.hi)):
                        left.append(p)
                        return Seq(left), Seq(ps[k + 1:])
                    left.append(Cat(p.fam, p.lo, mid))
                    return Seq(left), Seq([Cat(p.fam, mid, p.hi)] + ps[k + 1:])
                st.fact(tz(lt(mid, p.hi)))
                left.append(Cat(p.fam, p.lo, mid))
                a, b = split_at(st, Seq(p.fam.inst(st, mid)), rm)
                return Seq(tuple(left) + a.p), Seq(b.p + (Cat(p.fam, add(mid, 1), p.hi),) + tuple(ps[k + 1:]))
            ps[k:k + 1] = list(unfold_front(st, p))
            continue
        raise Unsupported('split')
    return Seq(left), Seq()


def lindiv(r, e):
    """exact division of a linear term by constant e, if every coefficient is a multiple"""
    t = z3.simplify(tz(r), som=True)
    terms = t.children() if z3.is_add(t) else [t]
    q = []
    for x in terms:
        if z3.is_int_value(x):
            v = x.as_long()
            if v % e:
                return None, None
            q.append(z3.IntVal(v // e))
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.num_args() == 2:
            v = x.arg(0).as_long()
            if v % e:
                return None, None
            q.append(x.arg(1) * (v // e))
        else:
            return None, None
    return simp(z3.Sum(*q) if len(q) > 1 else q[0]), 0


def seq_slice(st, s, lo, hi):
    if not isz(lo) and lo == 0:
        if eqt(hi, s.len) is True:
            return s
        return split_at(st, s, hi)[0]
    if eqt(lo, hi) is True:
        return Seq()
    _, r = split_at(st, s, lo)
    if eqt(hi, s.len) is True:
        return r
    return split_at(st, r, sub(hi, lo))[0]


def seq_set(st, s, i, v):
    a, r = split_at(st, s, i)
    _, c = split_at(st, r, 1)
    return Seq(a.p + (Lit([v]),) + c.p)


def seq_splice(st, s, off, new):
    """s with new written at off"""
    a, r = split_at(st, s, off)
    _, c = split_at(st, r, new.len)
    return Seq(a.p + new.p + c.p)


def seq_int(st, s, kind):
    """integer value of a (concrete-length) byte sequence"""
    if len(s.p) == 1 and isinstance(s.p[0], Enc) and s.p[0].kind == kind:
        return s.p[0].v
    n = s.len
    if isz(n):
        raise Unsupported('seq_int of symbolic length')
    if len(s.p) == 1 and isinstance(s.p[0], Sub):
        # keep one opaque integer per slice so that it can be re-encoded
        p = s.p[0]
        v = uf('dec_%s%d' % (kind, n), [reify_piece(p)], INT)
        st.fact(z3.And(v >= 0, v < 256 ** n))
        # the bytes are the digits of v
        bs = [elem_of_atom(st, p, i) for i in range(n)]
        if kind == 'be':
            st.fact(v == z3.Sum([b * 256 ** (n - 1 - i) for i, b in enumerate(bs)]))
        else:
            st.fact(v == z3.Sum([b * 256 ** i for i, b in enumerate(bs)]))
        return v
    # trailing/leading zero padding around an encoding
    tot = 0
    pos = 0
    for p in s.p:
        if isinstance(p, Enc) and p.kind == kind:
            w = 256 ** (n - pos - p.len) if kind == 'be' else 256 ** pos
            tot = add(tot, mul(p.v, w))
            pos += p.len
            continue
        if isinstance(p, Sub) and not isz(p.len):
            w = 256 ** (n - pos - p.len) if kind == 'be' else 256 ** pos
            tot = add(tot, mul(seq_int(st, Seq([p]), kind), w))
            pos += p.len
            continue
        bs = [p.v[i] if isinstance(p, Lit) else seq_get(st, Seq([p]), i) for i in range(p.len)]
        for v, k in join_digits(bs if kind == 'le' else bs[::-1]):
            w = 256 ** (n - pos - p.len) if kind == 'be' else 256 ** pos
            tot = add(tot, mul(v, w * 256 ** k))
        pos += p.len
    return tot


def digit(b):
    """(v, i) when b is the digit (v div 256^i) mod 256"""
    if not isz(b) or b.decl().kind() != z3.Z3_OP_MOD or not z3.is_int_value(b.arg(1)) or b.arg(1).as_long() != 256:
        return None
    x = b.arg(0)
    if x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)):
        w = x.arg(1).as_long()
        i = (w.bit_length() - 1) // 8
        if w == 256 ** i and i > 0:
            return x.arg(0), i
    return x, 0


def join_digits(bs):
    """[(value, position)] of little-endian bytes, the digits 0..k-1 of one number put together as its remainder"""
    out, i = [], 0
    while i < len(bs):
        d, k = digit(bs[i]), 1
        if d is not None and d[1] == 0:
            while i + k < len(bs):
                e = digit(bs[i + k])
                if e is None or e[1] != k or not e[0].eq(d[0]):
                    break
                k += 1
        out.append((bs[i] if k == 1 else simp(d[0] % 256 ** k), i))
        i += k
    return out


# ------------------------------------------------------------------ other values
class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, tuple(path)

    def __repr__(self):
        return '&%s%s' % (self.obj, ''.join('.%s' % (x,) for x in self.path))


class SymObj:
    """an object of the symbolic input region, identified by a term"""
    __slots__ = ('t', 'ty', 'h')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty
        self.h = hash((t.hash(), ty))

    def __eq__(self, o):
        return isinstance(o, SymObj) and self.ty == o.ty and self.t.eq(o.t)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return '<%s>' % (self.t,)


class ConstObj:
    """an immutable backing array with known content"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return 'const(%r)' % (self.seq,)


class SliceV:
    __slots__ = ('base', 'off', 'len', 'cap', 'nil')

    def __init__(self, base, off, ln, cap, nil=False):
        self.base, self.off, self.len, self.cap, self.nil = base, off, ln, cap, nil

    def __repr__(self):
        return 'Slice(%r,%s,+%s)' % (self.base, self.off, self.len)


class St:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty, self.f = ty, tuple(f)

    def __repr__(self):
        return 'St%r' % (list(self.f),)


class Iface:
    """interface value with known dynamic type; ty None = nil interface"""
    __slots__ = ('ty', 'v')

    def __init__(self, ty, v):
        self.ty, self.v = ty, v

    def __repr__(self):
        return 'Iface(%s,%r)' % (self.ty, self.v)


class SymIface:
    """unknown interface value; nil iff term == NIL"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=None):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'SymIface(%s)' % (self.t,)


NILIF = Iface(None, None)


class Clo:
    __slots__ = ('fn', 'b')

    def __init__(self, fn, b=()):
        self.fn, self.b = fn, tuple(b)

    def __repr__(self):
        return 'Clo(%s)' % self.fn


class SymFn:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class MapRef:
    """map value: obj names a heap entry holding MapV; obj None = nil map"""
    __slots__ = ('obj', 'ty')

    def __init__(self, obj, ty):
        self.obj, self.ty = obj, ty

    def __repr__(self):
        return 'Map(%s)' % (self.obj,)


class MapV:
    """base: None (empty) | (name term U) symbolic; upd: tuple of (key, value|None deleted);
    laws: list of functions(st,key,val) assumed of entries of the symbolic base"""
    __slots__ = ('base', 'upd', 'kt', 'vt', 'laws')

    def __init__(self, base, upd, kt, vt, laws=()):
        self.base, self.upd, self.kt, self.vt, self.laws = base, tuple(upd), kt, vt, tuple(laws)

    def __repr__(self):
        return 'MapV(%s,%r)' % (self.base, self.upd)


class ChanV:
    __slots__ = ('t', 'elem', 'cap')

    def __init__(self, t, elem, cap=None):
        self.t, self.elem, self.cap = t, elem, cap

    def __repr__(self):
        return 'Chan(%s)' % (self.t,)


class Opaque:
    """value of a type the verifier does not look into, identified by a term"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=None):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'Opaque(%s)' % (self.t,)


class Ev:
    """ghost event"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, **a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return 'Ev(%s,%r)' % (self.kind, self.a)


class Iter:
    __slots__ = ('m', 'k')

    def __init__(self, m, k):
        self.m, self.k = m, k


# ------------------------------------------------------------------ substitution
def subst(v, sb):
    if v is None or isinstance(v, (int, bool, str)):
        return v
    if isz(v):
        return simp(z3.substitute(v, *sb))
    if isinstance(v, Seq):
        return Seq([subst(p, sb) for p in v.p])
    if isinstance(v, Lit):
        return Lit([subst(x, sb) for x in v.v])
    if isinstance(v, Sub):
        a = z3.substitute(v.atom, *sb)
        return Sub(a, subst(v.off, sb), subst(v.len, sb), v.ety)
    if isinstance(v, Enc):
        x = subst(v.v, sb)
        if not isz(x):
            return (be if v.kind == 'be' else leb)(v.len, x).p[0]
        return Enc(v.kind, v.len, x)
    if isinstance(v, Cat):
        f = v.fam
        used = set(free_consts_fam(f))
        rel = [(a, b) for a, b in sb if a.get_id() in used]
        if rel:
            f0 = f
            f = Family(f.k, [(subst(g, rel), tuple(subst(p, rel) for p in ps)) for g, ps in f.alts],
                       [subst(x, rel) for x in f.facts], subst(f.elen, rel) if isz(f.elen) else f.elen,
                       name=f.name + '{' + ','.join('%s=%s' % (a, b) for a, b in rel) + '}', nonempty=f.nonempty)
            if f0._key is not None:
                f._key, f.args = f0._key, tuple(tz(subst(x, rel)) for x in f0.args)
        return Cat(f, subst(v.lo, sb), subst(v.hi, sb))
    if isinstance(v, Ptr):
        return Ptr(subst(v.obj, sb), [subst(x, sb) for x in v.path])
    if isinstance(v, SymObj):
        return SymObj(z3.substitute(v.t, *sb), v.ty)
    if isinstance(v, ConstObj):
        return ConstObj(subst(v.seq, sb))
    if isinstance(v, SliceV):
        return SliceV(subst(v.base, sb), subst(v.off, sb), subst(v.len, sb), subst(v.cap, sb), subst(v.nil, sb))
    if isinstance(v, St):
        return St(v.ty, [subst(x, sb) for x in v.f])
    if isinstance(v, tuple):
        return tuple(subst(x, sb) for x in v)
    if isinstance(v, Iface):
        return Iface(v.ty, subst(v.v, sb))
    if isinstance(v, SymIface):
        return SymIface(z3.substitute(v.t, *sb), v.ty)
    if isinstance(v, Clo):
        return Clo(v.fn, [subst(x, sb) for x in v.b])
    if isinstance(v, SymFn):
        return SymFn(z3.substitute(v.t, *sb))
    if isinstance(v, MapRef):
        return MapRef(subst(v.obj, sb), v.ty)
    if isinstance(v, ChanV):
        return ChanV(z3.substitute(v.t, *sb) if isz(v.t) else v.t, v.elem, v.cap)
    if isinstance(v, Opaque):
        return Opaque(z3.substitute(v.t, *sb), v.ty)
    if isinstance(v, Ev):
        return Ev(v.kind, **{k: subst(x, sb) for k, x in v.a.items()})
    if isinstance(v, MapV):
        return MapV(subst(v.base, sb), [(subst(a, sb), subst(b, sb)) for a, b in v.upd], v.kt, v.vt, v.laws)
    if isinstance(v, Iter):
        return Iter(subst(v.m, sb), subst(v.k, sb))
    raise Unsupported('subst %r' % type(v))


def consts_of(t, acc):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.get_id())
        else:
            stack.extend(x.children())


def consts_val(v, acc):
    """ids of the uninterpreted constants occurring in v"""
    if isz(v):
        consts_of(v, acc)
    elif isinstance(v, Seq):
        for p in v.p:
            consts_val(p, acc)
    elif isinstance(v, Lit):
        for x in v.v:
            consts_val(x, acc)
    elif isinstance(v, Sub):
        for x in (v.atom, v.off, v.len):
            consts_val(x, acc)
    elif isinstance(v, Enc):
        consts_val(v.v, acc)
    elif isinstance(v, Cat):
        acc |= set(free_consts_fam(v.fam))
        consts_val(v.lo, acc)
        consts_val(v.hi, acc)
    elif isinstance(v, (list, tuple)):
        for x in v:
            consts_val(x, acc)
    elif isinstance(v, Ptr):
        consts_val(v.obj, acc)
        consts_val(v.path, acc)
    elif isinstance(v, SymObj):
        consts_val(v.t, acc)
    elif isinstance(v, ConstObj):
        consts_val(v.seq, acc)
    elif isinstance(v, SliceV):
        for x in (v.base, v.off, v.len, v.cap):
            consts_val(x, acc)
    elif isinstance(v, St):
        consts_val(v.f, acc)
    elif isinstance(v, Iface):
        consts_val(v.v, acc)
    elif isinstance(v, (SymIface, Opaque, SymFn)):
        consts_val(v.t, acc)
    elif isinstance(v, Clo):
        consts_val(v.b, acc)
    elif isinstance(v, MapRef):
        consts_val(v.obj, acc)
    elif isinstance(v, ChanV):
        consts_val(v.t, acc)
    elif isinstance(v, Ev):
        consts_val(list(v.a.values()), acc)


def free_consts_fam(f):
    c = getattr(f, '_fc', None)
    if c is None:
        acc = set()
        for g, ps in f.alts:
            consts_val(g, acc)
            for p in ps:
                consts_val(p, acc)
        for x in f.facts:
            consts_val(x, acc)
        acc.discard(f.k.get_id())
        for x in f.args:
            consts_val(x, acc)
        c = f._fc = acc
    return c


# ------------------------------------------------------------------ reification
def reify_piece(p):
    if isinstance(p, Sub):
        if not isz(p.off) and p.off == 0 and isz(p.len) and p.len.eq(uf('len', [p.atom], INT)):
            return p.atom
        return uf('sub', [p.atom, p.off, p.len], U)
    if isinstance(p, Lit):
        if all(isinstance(x, int) and not isinstance(x, bool) for x in p.v):
            return z3.Const('lit"' + ''.join('%02x' % (x & 255) for x in p.v), U)
        return chain([uf('unit', [term(x)], U) for x in p.v])
    if isinstance(p, Enc):
        return uf('enc%s%d' % (p.kind, p.len), [p.v], U)
    if isinstance(p, Cat):
        k, a = p.fam.sig()
        return uf('Cat:' + k, [p.lo, p.hi] + list(a), U)
    raise Unsupported('reify %r' % p)


def chain(ts):
    t = ts[-1]
    for x in reversed(ts[:-1]):
        t = uf('cat', [x, t], U)
    return t


EMPTY = z3.Const('lit"', U)


def reify(s):
    if not s.p:
        return EMPTY
    ps = []
    for p in s.p:
        if isinstance(p, Lit) and not all(isinstance(x, int) for x in p.v):
            ps.extend(uf('unit', [term(x)], U) for x in p.v)
        else:
            ps.append(reify_piece(p))
    return chain(ps)


def reifyst(st, s):
    """reified term with its length fact"""
    if len(s.p) > 1 and isinstance(s.p[-1], Cat) and isz(s.p[-1].len) and st.entails(s.p[-1].len == 0):
        s = Seq(s.p[:-1])   # the part a loop has not yet overwritten, when it has run to the end
    t = reify(s)
    l = s.len
    st.fact(uf('len', [t], INT) == tz(l))
    return t


def term(v):
    """a z3 term determined by the value"""
    if isinstance(v, (int, bool)) or isz(v):
        return tz(v)
    if isinstance(v, Seq):
        return reify(v)
    if isinstance(v, St):
        return uf('st%d' % len(v.f), [term(x) for x in v.f], U) if v.f else z3.Const('st0', U)
    if isinstance(v, tuple):
        return uf('tup%d' % len(v), [term(x) for x in v], U)
    if isinstance(v, Ptr):
        return uf('ptr', [term(v.obj)] + [term(x) for x in v.path], U)
    if isinstance(v, SymObj):
        return v.t
    if isinstance(v, ConstObj):
        return reify(v.seq)
    if isinstance(v, SliceV):
        if v.base is None:
            return EMPTY
        if isinstance(v.base.obj, (ConstObj, SymObj)) and not v.base.path:
            return uf('slice', [term(v.base), v.off, v.len], U)
        return uf('slice', [term(v.base), v.off, v.len], U)
    if isinstance(v, Iface):
        return NIL if v.ty is None else uf('iface:' + str(v.ty), [term(v.v)], U)
    if isinstance(v, (SymIface, Opaque, SymFn)):
        return v.t
    if isinstance(v, ChanV):
        return tz(v.t)
    if v is None:
        return NIL
    if isinstance(v, Clo):
        return uf('clo:' + v.fn, [term(x) for x in v.b], U) if v.b else z3.Const('clo:' + v.fn, U)
    if isinstance(v, MapRef):
        return uf('map', [term(v.obj)], U)
    if isinstance(v, Ev):
        return uf('ev:' + v.kind + ','.join(sorted(v.a)), [term(v.a[k]) for k in sorted(v.a)] or [0], U)
    if isinstance(v, str):
        return z3.Const('str:' + v, U)
    raise Unsupported('term %r' % type(v))


# ------------------------------------------------------------------ equality
def elem_eq(st, a, b):
    if isinstance(a, (int, bool)) or isz(a):
        if not (isinstance(b, (int, bool)) or isz(b)):
            return False
        return eqt(a, b)
    return val_eq(st, a, b)


def val_eq(st, a, b):
    """formula: a equals b (content equality for slices)"""
    if a is b:
        return True
    if (isinstance(a, (int, bool)) or isz(a)) and (isinstance(b, (int, bool)) or isz(b)):
        return eqt(a, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(st, a, b)
    if isinstance(a, St) and isinstance(b, St):
        if len(a.f) != len(b.f):
            return False
        return And(*[val_eq(st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[val_eq(st, x, y) for x, y in zip(a, b)])
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        if a.base is not None and b.base is not None and same_ptr(a.base, b.base) is True and \
                eqt(a.off, b.off) is True and eqt(a.len, b.len) is True:
            return True
        return seq_eq(st, st.content(a), st.content(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same_ptr(a, b)
    if a is None or b is None:
        if a is None and b is None:
            return True
        o = a if b is None else b
        if isinstance(o, Ptr):
            if isinstance(o.obj, SymObj) and not o.path:
                return eqt(o.obj.t, NIL)
            return False
        if isinstance(o, (SymFn, Opaque)):
            return eqt(o.t, NIL)
        if isinstance(o, Clo):
            return False
        if isinstance(o, MapRef):
            return o.obj is None
        if isinstance(o, ChanV):
            return False
    if isinstance(a, (Iface, SymIface)) and isinstance(b, (Iface, SymIface)):
        if isinstance(a, Iface) and isinstance(b, Iface):
            if a.ty != b.ty:
                return False
            if a.ty is None:
                return True
            return val_eq(st, a.v, b.v)
        if isinstance(a, Iface) and a.ty is not None:
            return eqt(b.t, term(a))
        if isinstance(b, Iface) and b.ty is not None:
            return eqt(a.t, term(b))
        ta = NIL if isinstance(a, Iface) else a.t
        tb = NIL if isinstance(b, Iface) else b.t
        return eqt(ta, tb)
    if isinstance(a, Ev) and isinstance(b, Ev):
        if a.kind != b.kind or set(a.a) != set(b.a):
            return False
        return And(*[val_eq(st, a.a[k], b.a[k]) for k in a.a])
    if isinstance(a, Clo) and isinstance(b, Clo):
        return a.fn == b.fn and And(*[val_eq(st, x, y) for x, y in zip(a.b, b.b)])
    if isinstance(a, MapRef) and isinstance(b, MapRef):
        return a.obj == b.obj
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    try:
        return eqt(term(a), term(b))
    except Exception:
        return False


def same_ptr(a, b):
    if a.obj is b.obj or (isinstance(a.obj, int) and a.obj == b.obj):
        base = True
    elif isinstance(a.obj, SymObj) and isinstance(b.obj, SymObj):
        base = eqt(a.obj.t, b.obj.t)
    elif isinstance(a.obj, ConstObj) and isinstance(b.obj, ConstObj):
        return False
    else:
        return False
    if len(a.path) != len(b.path):
        return False
    return And(base, *[eqt(x, y) if not isinstance(x, str) else x == y for x, y in zip(a.path, b.path)])


def seq_eq(st, a, b):
    """formula sufficient and (for aligned shapes) necessary for a == b"""
    la, lb = a.len, b.len
    if not isz(la) and not isz(lb) and la != lb:
        return False
    pa, pb = list(a.p), list(b.p)
    conds = []

    def plen0(p):
        return eqt(p.len, 0)

    steps = 0
    while pa or pb:
        steps += 1
        if steps > 4000:
            raise Unsupported('seq_eq diverges')
        if not pa or not pb:
            conds.append(And(*[seq_isempty(p) for p in (pa or pb)]))
            break
        x, y = pa[0], pb[0]
        if isinstance(x, Lit) and isinstance(y, Lit):
            n = min(len(x.v), len(y.v))
            for i in range(n):
                c = elem_eq(st, x.v[i], y.v[i])
                if c is False:
                    conds.append(False)
                    return False
                conds.append(c)
            pa[0:1] = [Lit(x.v[n:])] if n < len(x.v) else []
            pb[0:1] = [Lit(y.v[n:])] if n < len(y.v) else []
            continue
        if isinstance(x, Enc) and isinstance(y, Enc) and x.kind == y.kind and x.len == y.len:
            conds.append(eqt(x.v, y.v))
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, Cat) and isinstance(y, Cat) and samefam_sem(st, x.fam, y.fam):
            # align the lower bounds
            if st.entails_(eqt(x.lo, y.lo)):
                if st.entails_(eqt(x.hi, y.hi)):
                    pa.pop(0)
                    pb.pop(0)
                    continue
                if st.entails_(lt(x.hi, y.hi)) or (not st.entails_(lt(y.hi, x.hi)) and st.entails_(le(x.hi, y.hi))):
                    pa.pop(0)
                    pb[0] = Cat(x.fam, x.hi, y.hi)
                    continue
                if st.entails_(le(y.hi, x.hi)):
                    pb.pop(0)
                    pa[0] = Cat(x.fam, y.hi, x.hi)
                    continue
                conds.append(eqt(x.hi, y.hi))
                pa.pop(0)
                pb.pop(0)
                continue
        if isinstance(x, Sub) and isinstance(y, Sub) and eqatom(st, x.atom, y.atom):
            if st.entails_(eqt(x.off, y.off)):
                if eqt(x.len, y.len) is True or st.entails_(eqt(x.len, y.len)):
                    pa.pop(0)
                    pb.pop(0)
                    continue
                if st.entails_(le(x.len, y.len)):
                    pa.pop(0)
                    pb[0] = Sub(y.atom, add(y.off, x.len), sub(y.len, x.len), y.ety)
                    continue
                if st.entails_(le(y.len, x.len)):
                    pb.pop(0)
                    pa[0] = Sub(x.atom, add(x.off, y.len), sub(x.len, y.len), x.ety)
                    continue
        # element-wise comparison of an accumulated and an opaque sequence
        conv = False
        for lst, oth in ((pa, pb), (pb, pa)):
            if isinstance(lst[0], Cat) and lst[0].fam.elen == 1 and isinstance(oth[0], Sub) and \
                    (oth[0].ety is not None or lst[0].fam.bytes()):
                c = atom_cat(st, oth[0])
                if samefam_sem(st, lst[0].fam, c.fam):
                    oth[0] = c
                    conv = True
                    break
        if conv:
            continue
        # empty Cats / pieces
        dropped = False
        for lst in (pa, pb):
            p = lst[0]
            if isinstance(p, (Cat, Sub)):
                e = le(p.hi, p.lo) if isinstance(p, Cat) else eqt(p.len, 0)
                if st.entails_(e):
                    lst.pop(0)
                    dropped = True
                    break
        if dropped:
            continue
        # expand Cats that are known non-empty
        done = False
        for lst, oth in ((pa, pb), (pb, pa)):
            p = lst[0]
            if isinstance(p, Cat) and st.entails_(lt(p.lo, p.hi)):
                if len(p.fam.alts) == 1 and not (p.fam.name == getattr(p.fam, 'opaque', None)):
                    lst[0:1] = list(unfold_front(st, p))
                    done = True
                    break
        if done:
            continue
        if isinstance(x, Enc) or isinstance(y, Enc):
            # expand to bytes, prefer joining
            for lst, oth in ((pa, pb), (pb, pa)):
                p = lst[0]
                if isinstance(p, Enc):
                    q = oth[0]
                    if isinstance(q, Sub) and not isz(q.len) and q.len < p.len:
                        pass
                    try:
                        head, tail = split_at_e(st, Seq(oth), p.len)
                    except Unsupported:
                        head = None
                    if head is not None:
                        if all(isinstance(q_, Lit) for q_ in head.p):
                            hv = [b_ for q_ in head.p for b_ in q_.v]
                            conds.append(And(*[eqt(b_, p.byte(n_)) for n_, b_ in enumerate(hv)]))
                        else:
                            conds.append(eqt(seq_int(st, head, p.kind), p.v))
                        lst.pop(0)
                        oth[:] = list(tail.p)
                        done = True
                        break
            if done:
                continue
        if isinstance(x, Lit) and isinstance(y, Sub):
            n = len(x.v)
            if st.entails_(le(n, y.len)):
                for i in range(n):
                    conds.append(elem_eq(st, x.v[i], elem_of_atom(st, y, i)))
                pa.pop(0)
                pb[0] = Sub(y.atom, add(y.off, n), sub(y.len, n), y.ety)
                continue
            if not isz(y.len):
                for i in range(y.len):
                    conds.append(elem_eq(st, x.v[i], elem_of_atom(st, y, i)))
                pb.pop(0)
                pa[0] = Lit(x.v[y.len:])
                continue
        if isinstance(y, Lit) and isinstance(x, Sub):
            pa, pb = pb, pa
            continue
        if isinstance(x, Sub) and isinstance(y, Sub):
            if eqt(x.len, y.len) is True or st.entails_(eqt(x.len, y.len)):
                conds.append(eqt(reify_piece(x), reify_piece(y)))
                pa.pop(0)
                pb.pop(0)
                continue
        # fall back on whole-term equality of the remainders
        ra, rb = Seq(pa), Seq(pb)
        c = And(eqt(reifyst(st, ra), reifyst(st, rb)), eqt(ra.len, rb.len))
        conds.append(c)
        for l, o in ((pa, pb), (pb, pa)):
            # extensionality for a short literal: the whole-term equality is the equality of lengths and bytes
            if len(l) == 1 and len(o) == 1 and isinstance(l[0], Lit) and isinstance(o[0], Sub) and o[0].ety is None and \
                    0 < len(l[0].v) <= 64 and all(isinstance(b, int) and not isinstance(b, bool) for b in l[0].v) and isz(c):
                st.fact(c == tz(And(eqt(o[0].len, len(l[0].v)), *[eqt(elem_of_atom(st, o[0], i), b) for i, b in enumerate(l[0].v)])))
                break
        break
    return And(*conds)


def atom_cat(st, p):
    """the comprehension view of an opaque sequence"""
    k = z3.Int('katom')
    s2 = State(st.prog)
    v = elem_of_atom(s2, Sub(p.atom, 0, p.len, p.ety), k)
    f = Family(k, [(True, (Lit([v]),))], list(s2.pc), elen=1, name='atom:%s:%s' % (p.atom, p.ety))
    return Cat(f, p.off, add(p.off, p.len))


def split_at_e(st, s, n):
    """split without forking: raises Unsupported when undecided"""
    try:
        if not st.entails_(le(n, s.len)):
            raise Unsupported('short')
        return split_at(NoFork(st), s, n)
    except Fork:
        raise Unsupported('fork')


class NoFork:
    def __init__(self, st):
        self.__dict__['_st'] = st

    def __getattr__(self, n):
        return getattr(self._st, n)


def eqatom(st, a, b):
    return a.eq(b) or st.entails_(a == b)


def seq_isempty(p):
    if isinstance(p, Cat):
        return le(p.hi, p.lo)
    return eqt(p.len, 0)


def samefam_sem(st, f, g):
    """families with provably equal bodies at every index"""
    if f is g or f.name == g.name:
        return True
    if f.key() == g.key():
        return True
    ck = (f.name, g.name)
    c = st.famcache.get(ck)
    if c is not None:
        return c
    if len(f.alts) != 1 or len(g.alts) != 1:
        return False
    st.famcache[ck] = False
    s2 = st.clone()
    j = s2.fresh_int('fj')
    try:
        a = Seq(f.inst(s2, j))
        b = Seq(g.inst(s2, j))
        r = s2.entails_(seq_eq(s2, a, b))
    except (Fork, Unsupported):
        r = False
    st.famcache[ck] = r
    return r


# ------------------------------------------------------------------ state
class State:
    def __init__(self, prog):
        self.prog = prog
        self.pc = []
        self.pcset = set()
        self.heap = {}
        self.htype = {}
        self.frozen = {}
        self.link = {}
        self.ghost = {}
        self.ctx = ()
        self.trace = ()
        self.famcache = {}
        self.silent = False

    def clone(self):
        s = State.__new__(State)
        s.prog = self.prog
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.heap = dict(self.heap)
        s.htype = dict(self.htype)
        s.frozen = dict(self.frozen)
        s.link = dict(self.link)
        s.ghost = dict(self.ghost)
        s.ctx = self.ctx
        s.trace = self.trace
        s.famcache = dict(self.famcache)
        s.silent = self.silent
        return s

    # -- facts
    def fact(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        h = f.get_id()
        if h in self.pcset:
            return
        self.pcset.add(h)
        self.pc.append(f)

    def assume_facts(self, fs):
        for f in fs:
            if isinstance(f, bool):
                if not f:
                    self.fact(False)
                continue
            self.fact(f)

    def assume(self, f):
        """add f; raise Infeasible when it contradicts the path"""
        if f is True:
            return
        f = simp(f) if isz(f) else f
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.fact(f)

    def feasible(self):
        return SOLVER.check(self.pc, True) != z3.unsat

    def entails(self, f):
        if isinstance(f, bool):
            return f
        f = simp(f)
        if isinstance(f, bool):
            return f
        if f.get_id() in self.pcset:
            return True
        r = SOLVER.check(self.pc, z3.Not(f))
        return r == z3.unsat

    entails_ = entails

    def decide(self, f):
        """truth value of f on this path; Fork when both are possible"""
        if isinstance(f, bool):
            return f
        f = simp(f)
        if isinstance(f, bool):
            return f
        if f.get_id() in self.pcset:
            return True
        r = SOLVER.check(self.pc, z3.Not(f))
        if r == z3.unsat:
            return True
        r2 = SOLVER.check(self.pc, f)
        if r2 == z3.unsat:
            return False
        raise Fork(f)

    # -- fresh symbols: functions of the enclosing loop counters
    def fresh(self, name, sort):
        n = '%s!%d' % (name, next(_ctr))
        return uf(n, list(self.ctx), sort)

    def fresh_int(self, name, lo=None, hi=None):
        v = self.fresh(name, INT)
        if lo is not None:
            self.fact(v >= lo)
        if hi is not None:
            self.fact(v <= hi)
        return v

    def fresh_bool(self, name):
        return self.fresh(name, BOOL)

    def fresh_u(self, name):
        return self.fresh(name, U)

    def fresh_seq(self, name, ln=None, ety=None):
        return atom_seq(self, self.fresh_u(name), ety, ln)

    # -- heap
    def alloc(self, val, ty=None):
        i = next(_ctr)
        self.heap[i] = val
        self.htype[i] = ty
        return i

    def content(self, sl):
        """Seq of the elements of a slice value"""
        if isinstance(sl, Seq):
            return sl
        if sl.base is None:
            return Seq()
        c = self.load(sl.base)
        if not isinstance(c, Seq):
            raise Unsupported('slice over %r' % (c,))
        return seq_slice(self, c, sl.off, add(sl.off, sl.len))

    def load(self, p):
        if p is None:
            raise Unsupported('load nil')
        o = p.obj
        if isinstance(o, ConstObj):
            v = o.seq
            path = p.path
        elif o in self.heap:
            v = self.heap[o]
            path = p.path
        elif isinstance(o, SymObj):
            return self.prog.symload(self, o, p.path)
        else:
            raise Unsupported('load %r' % (p,))
        for x in path:
            v = self.sel(v, x)
        return v

    def sel(self, v, x):
        if isinstance(v, St):
            return v.f[x]
        if isinstance(v, Seq):
            return seq_get(self, v, x)
        raise Unsupported('select %s of %r' % (x, v))

    def store(self, p, val):
        o = p.obj
        if isinstance(o, ConstObj):
            self.prog.oblige(self, 'write-to-immutable', False, 'write to memory that was handed off')
            return
        if o not in self.heap:
            if isinstance(o, SymObj):
                self.heap[o] = self.prog.symload(self, o, ())
            else:
                raise Unsupported('store to %r' % (p,))
        self.heap[o] = self.upd(self.heap[o], p.path, val)
        self.alias_poison(o)

    def alias_poison(self, o):
        for q in self.link.get(o, ()):
            if q in self.heap and isinstance(self.heap[q], Seq):
                s = self.heap[q]
                ety = None
                for p in s.p:
                    if isinstance(p, Sub):
                        ety = p.ety
                self.heap[q] = self.fresh_seq('poison', s.len, ety)

    def upd(self, v, path, val):
        if not path:
            return val
        x = path[0]
        if isinstance(v, St):
            f = list(v.f)
            f[x] = self.upd(f[x], path[1:], val)
            return St(v.ty, f)
        if isinstance(v, Seq):
            if len(path) == 1:
                return seq_set(self, v, x, val)
            return seq_set(self, v, x, self.upd(seq_get(self, v, x), path[1:], val))
        raise Unsupported('update of %r' % (v,))

    def freeze(self, base, off, ln):
        if base is None or isinstance(base.obj, ConstObj):
            return
        self.frozen[base.obj] = self.frozen.get(base.obj, ()) + ((base.path, off, ln),)

    def check_write(self, base, off, ln, what):
        """obligation: the written range does not overlap handed-off memory"""
        fr = self.frozen.get(base.obj)
        if isinstance(base.obj, ConstObj):
            self.prog.oblige(self, 'handoff', False, 'write to handed-off memory: ' + what)
            return
        if not fr:
            return
        for (path, fo, fl) in fr:
            if len(path) != len(base.path) and path != base.path[:len(path)]:
                continue
            c = Or(le(add(off, ln), fo), le(add(fo, fl), off), eqt(fl, 0), eqt(ln, 0)) if fo is not None else False
            self.prog.oblige(self, 'handoff', c, 'write to handed-off memory: ' + what)
