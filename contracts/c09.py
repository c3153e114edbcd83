"""C09: RFC 6979 ECDSA signatures (internal/rfc6979) and their TLS encoding (DigitallySign).

Every function of the package is under contract for each of the three curves. The numbers of the curves below are those of
FIPS 186-4 (D.1.2), written here independently of the code. Dependencies (bigmod, nistec, math/big, hmac, cryptobyte) are
assumed contracts over mathematical integers; residues are kept as polynomials over the field, so that the order in which
the code adds and multiplies does not matter."""
from iomodels import *
from cryptomodels import *
import loops

R = 'itko.dev/internal/rfc6979.'
BM = 'filippo.io/bigmod.'
NE = 'filippo.io/nistec.'
BIG = 'math/big.Int'

CURVES = {
    'P256': dict(n=32, bits=256,
                 N=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
                 p=2**256 - 2**224 + 2**192 + 2**96 - 1),
    'P384': dict(n=48, bits=384,
                 N=0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
                 p=2**384 - 2**128 - 2**96 + 2**32 - 1),
    'P521': dict(n=66, bits=521,
                 N=6864797660130609714981900799081393217269435300143305409394463459185543183397655394245057746333217197532963996371363321113864768612440380340372808892707005449,
                 p=2**521 - 1),
}
# crypto.Hash values and digest sizes (crypto package documentation)
HASHES = {'MD5': (2, 16), 'SHA1': (3, 20), 'SHA224': (4, 28), 'SHA256': (5, 32), 'SHA384': (6, 48), 'SHA512': (7, 64)}


class Cur:
    def __init__(self, name):
        c = CURVES[name]
        self.name, self.n, self.bits, self.N, self.p = name, c['n'], c['bits'], c['N'], c['p']
        self.pt = '*%s%sPoint' % (NE, name)

    def fn(self, f):
        return '%s%s[%s]' % (R, f, self.pt)


def minbytes(v):
    return v.to_bytes((v.bit_length() + 7) // 8, 'big')


# ------------------------------------------------------------ numbers of byte strings

def os2ip(st, s):
    """the integer a big-endian byte string encodes"""
    c = s.concrete()
    if c is not None:
        return int.from_bytes(c, 'big')
    ps = [p for p in s.p if not (not isz(p.len) and p.len == 0)]
    while ps and isinstance(ps[0], Lit) and all(not isz(x) and x == 0 for x in ps[0].v):
        ps = ps[1:]     # leading zeros
    if len(ps) == 1 and isinstance(ps[0], Enc) and ps[0].kind == 'be':
        return ps[0].v
    if len(ps) == 1 and isinstance(ps[0], Sub) and ps[0].atom.decl().name() == 'minbytes':
        if st.entails(And(eqt(ps[0].off, 0), eqt(ps[0].len, uf('len', [ps[0].atom], INT)))):
            return ps[0].atom.arg(0)
    s = Seq(ps)
    v = uf('os2ip', [core.reifyst(st, s)], INT)
    st.fact(v >= 0)
    l = s.len
    if not isz(l):
        st.fact(v < 256 ** l)
    else:
        for n in (31, 32, 47, 48, 65, 66):
            st.fact(z3.Implies(l <= n, v < 256 ** n))
    return v


def reduce(cur, v):
    """v mod N for v < 2N"""
    if not isz(v):
        return v % cur.N
    return z3.If(v >= cur.N, v - cur.N, v)


def bits2int(st, cur, s):
    """RFC 6979 2.3.2: the leftmost qlen bits"""
    l = s.len
    if st.decide(lt(l, cur.n)):
        return os2ip(st, s)
    h = seq_slice(st, s, 0, cur.n)
    ex = 8 * cur.n - cur.bits
    v = os2ip(st, h)
    return idiv(v, 2 ** ex) if ex else v


# ------------------------------------------------------------ residues

def poly_of(P, t):
    if not isz(t):
        return {(): t}
    return P.polys.get(t.get_id(), {(t.get_id(),): 1})


def poly_term(P, st, cur, pl):
    pl = {m: c % cur.N for m, c in pl.items() if c % cur.N}
    if len(pl) == 1:
        (m, c), = pl.items()
        if len(m) == 1 and c == 1:
            return P.polyatoms[m[0]]
    if not pl:
        return 0
    if set(pl) == {()}:
        return pl[()]
    ts = []
    for m in sorted(pl, key=lambda m: [P.polyatoms[a].sexpr() for a in m]):
        x = z3.IntVal(pl[m])
        for a in m:
            x = x * P.polyatoms[a]
        ts.append(x)
    v = uf('mod' + cur.name, [z3.Sum(ts)], INT)
    st.fact(z3.And(v >= 0, v < cur.N))
    P.polys[v.get_id()] = pl
    P.polykeep.append(v)
    return v


def atom(P, t):
    if isz(t) and t.get_id() not in P.polys:
        P.polyatoms[t.get_id()] = t
        P.polykeep.append(t)
    return t


def pmul(P, a, b):
    r = {}
    for m, c in poly_of(P, atom(P, a)).items():
        for n, d in poly_of(P, atom(P, b)).items():
            k = tuple(sorted(m + n, key=lambda x: P.polyatoms[x].sexpr()))
            r[k] = r.get(k, 0) + c * d
    return r


def padd(P, a, b, s=1):
    r = dict(poly_of(P, atom(P, a)))
    for m, c in poly_of(P, atom(P, b)).items():
        r[m] = r.get(m, 0) + s * c
    return r


# ------------------------------------------------------------ assumed contracts of the dependencies

def val(st, p, name='natval'):
    v = st.load(p)
    if isinstance(v, St):
        return v.f[0]
    return uf(name, [v.t], INT)


def newval(st, v):
    return Ptr(st.alloc(St(None, (v,)), None))


def install(P, cur):
    m = P.models
    P.polys, P.polyatoms, P.polykeep = {}, {}, []
    P.opaque_types.update([BM + 'Nat', BM + 'Modulus', BIG] + [NE + c + 'Point' for c in CURVES])
    for t in (BM + 'Nat', BIG):
        P.zerohooks[t] = lambda: St(None, (0,))
    for c in CURVES:
        P.zerohooks[NE + c + 'Point'] = lambda: St(None, (0,))

    def put(st, p, v):
        st.store(p, St(None, (v,)))

    def modulus(st, p):
        if not P.is_modulus(st, p):
            raise Unsupported('another modulus %r' % (p,))

    def bigint(st, p):
        v = st.load(p)
        if isinstance(v, St):
            return v.f[0]
        x = uf('bigval', [v.t], INT)
        for t, n in P.bigconst:
            if v.t.eq(t):
                return n
        return x
    P.bigint = bigint

    def sized(v, n):
        return Seq([Enc('be', n, v)]) if isz(v) else Seq([Lit(tuple(v.to_bytes(n, 'big')))])
    P.sized = sized

    m[BM + 'NewNat'] = lambda P, st, a, i: (newval(st, 0),)
    m['(*%sNat).Bytes' % BM] = lambda P, st, a, i: (modulus(st, a[1]), bytesv(P, st, sized(val(st, a[0]), cur.n)))[1:]

    def setb(P, st, a, i, over):
        modulus(st, a[2])
        s = st.content(a[1])
        if not st.entails(le(s.len, cur.n)):
            raise Unsupported('number longer than the modulus: %r' % (s.len,))
        v = os2ip(st, s)
        if over:
            bad = ge(v, 2 ** cur.bits)
        else:
            bad = ge(v, cur.N)
        if st.decide(bad):
            put(st, a[0], st.fresh_int('garbage'))
            return (P.zero(st, i['results'][0]), newerr(st))
        put(st, a[0], reduce(cur, v) if over else v)
        return (a[0], NILIF)
    m['(*%sNat).SetBytes' % BM] = lambda P, st, a, i: setb(P, st, a, i, False)
    m['(*%sNat).SetOverflowingBytes' % BM] = lambda P, st, a, i: setb(P, st, a, i, True)
    m['(*%sNat).IsZero' % BM] = lambda P, st, a, i: (1 if st.decide(eqt(val(st, a[0]), 0)) else 0,)

    def ar(f):
        def g(P, st, a, i):
            modulus(st, a[2])
            put(st, a[0], poly_term(P, st, cur, f(val(st, a[0]), val(st, a[1]))))
            return (a[0],)
        return g
    m['(*%sNat).Mul' % BM] = ar(lambda x, y: pmul(P, x, y))
    m['(*%sNat).Add' % BM] = ar(lambda x, y: padd(P, x, y))
    m['(*%sNat).Sub' % BM] = ar(lambda x, y: padd(P, x, y, -1))

    def exp(P, st, a, i):
        modulus(st, a[3])
        x, e = val(st, a[1]), os2ip(st, st.content(a[2]))
        put(st, a[0], power(st, cur, x, e))
        return (a[0],)
    m['(*%sNat).Exp' % BM] = exp
    m['(*%sModulus).Size' % BM] = lambda P, st, a, i: (modulus(st, a[0]), cur.n)[1:]
    m['(*%sModulus).BitLen' % BM] = lambda P, st, a, i: (modulus(st, a[0]), cur.bits)[1:]

    def bigbytes(P, st, a, i):
        v = bigint(st, a[0])
        if not isz(v):
            return (bytesv(P, st, lit(minbytes(v))),)
        t = uf('minbytes', [v], core.U)
        l = uf('len', [t], INT)
        st.fact(l >= 0)
        for n in (32, 48, 66):
            if st.entails(v < 256 ** n):
                st.fact(l <= n)
                break
            st.fact((v < 256 ** n) == (l <= n))
        return (bytesv(P, st, Seq([Sub(t, 0, l)])),)
    m['(*math/big.Int).Bytes'] = bigbytes

    def fill(P, st, a, i):
        v, b = bigint(st, a[0]), a[1]
        n = b.len
        if isz(n):
            raise Unsupported('FillBytes of symbolic length')
        if st.decide(ge(v, 256 ** n)):
            return [(st, 'panic', 'math/big: buffer too small to fit value')]
        P.copy(st, b, sized(v, n))
        return (b,)
    m['(*math/big.Int).FillBytes'] = fill
    m['math/big.NewInt'] = lambda P, st, a, i: (newval(st, a[0]),)

    def bigop(f):
        def g(P, st, a, i):
            st.store(a[0], St(None, (f(bigint(st, a[1]), bigint(st, a[2])),)))
            return (a[0],)
        return g
    m['(*math/big.Int).Sub'] = bigop(lambda x, y: sub(x, y))
    m['(*math/big.Int).Add'] = bigop(lambda x, y: add(x, y))
    m['(*math/big.Int).Set'] = lambda P, st, a, i: (st.store(a[0], St(None, (bigint(st, a[1]),))), a[0])[1:]
    P.bigconst = []
    P.is_modulus = lambda st, p: False


def power(st, cur, x, e):
    """x**e mod N; by Fermat x**(N-2) is the inverse of x for the prime N"""
    if not isz(e) and e == cur.N - 2:
        v = uf('inv' + cur.name, [tz(x)], INT)
    else:
        v = uf('pow' + cur.name, [tz(x), tz(e)], INT)
    st.fact(z3.And(v >= 0, v < cur.N))
    return v


def curve(P, st, cur):
    """a curve table that satisfies its invariant (proved by the curve-table units)"""
    t = R + 'nistCurve[%s]' % cur.pt
    nt = st.fresh_u('nn:modulus')
    f = {'newPoint': core.Clo('verif.newPoint'), 'curve': SymIface(uf('nn:curve:' + cur.name, [], core.U)),
         'N': Ptr(SymObj(nt, P.tid[BM + 'Modulus'])), 'nMinus2': bytesv(P, st, lit(minbytes(cur.N - 2)))}
    P.is_modulus = lambda st, p: isinstance(p, Ptr) and not p.path and isinstance(p.obj, SymObj) and p.obj.t.eq(nt)
    vals = [None] * len(f)
    for k, v in f.items():
        vals[fidx(P, t, k)] = v
    P.models['verif.newPoint'] = lambda P, st, a, i: (newval(st, 0),)
    c = Ptr(st.alloc(St(P.tid[t], tuple(vals)), P.tid[t]))
    st.ghost['table'] = term(st.load(c))
    return c


def unchanged(P, st, c):
    """the table, shared by all signatures, is as it was"""
    o = st.ghost['table']
    P.oblige(st, 'ensures.table-unchanged', term(st.load(c)).eq(o))


def key(P, st, cur):
    """a private key of the curve: 0 < D < N"""
    k = Ptr(SymObj(nn(st, 'priv'), P.tid[ECPRIV]))
    d = P.bigint(st, fieldval(P, st, k, ECPRIV, 'D'))
    st.fact(z3.And(d > 0, d < cur.N))
    return k, d


def shift_model(P, st, a, i):
    """contract of rightShift (proved below): the number is divided by 2**shift, in as many bytes"""
    s = st.content(a[0])
    P.oblige(st, 'rightShift.requires', not isz(s.len) and not isz(a[1]) and (s.len, a[1]) == (66, 7))
    P.contracted = getattr(P, 'contracted', set()) | {R + 'rightShift'}
    return (bytesv(P, st, Seq([Enc('be', s.len, idiv(os2ip(st, s), 2 ** a[1]))])),)


# ------------------------------------------------------------ units

def hashtonat(name):
    def u(P):
        cur = Cur(name)
        P.prefix = 'hashToNat[%s]/' % name
        install(P, cur)
        P.models[R + 'rightShift'] = shift_model
        st = State(P)
        c = curve(P, st, cur)
        h = st.fresh_seq('digest')
        e = newval(st, st.fresh_int('before'))
        arg = P.newslice(st, h)
        outs = nopanic(P, run(P, st, cur.fn('hashToNat'), [c, e, arg]), 'no-panic')

        def post(st, k, r):
            v = bits2int(st, cur, h)
            P.oblige(st, 'ensures.leftmost-bits-mod-N', eqt(val(st, e), reduce(cur, v)))
            P.oblige(st, 'ensures.digest-unchanged', seq_eq(st, st.content(arg), h))
            unchanged(P, st, c)
        forall(P, outs, post)
        # the single subtraction is the reduction
        s = State(P)
        x = s.fresh_int('x')
        s.fact(z3.And(x >= 0, x < 2 ** cur.bits))
        P.oblige(s, 'lemma.reduce', tz(reduce(cur, x)) == x % cur.N)
    return u


def rightshift(P):
    P.prefix = 'rightShift/'
    st = State(P)
    n, sh = 66, 7
    bs = [st.fresh_int('b') for _ in range(n)]
    for b in bs:
        st.fact(z3.And(b >= 0, b <= 255))
    P.unroll[R + 'rightShift'] = n + 1
    arg = P.newslice(st, Seq([Lit(tuple(bs))]))
    outs = nopanic(P, run(P, st, R + 'rightShift', [arg, sh]), 'no-panic')

    def post(st, k, r):
        c = st.content(r[0])
        P.oblige(st, 'ensures.length', eqt(c.len, n))
        got = [seq_get(st, c, j) for j in range(n)]
        # every byte of the quotient, by the digits of the dividend
        for j in range(n):
            hi = bs[j - 1] if j else z3.IntVal(0)
            P.oblige(st, 'ensures.byte', eqt(got[j], simp((tz(hi) * 256 + bs[j]) / 2 ** sh % 256)))
        P.oblige(st, 'ensures.argument-unchanged', seq_eq(st, st.content(arg), Seq([Lit(tuple(bs))])))
    forall(P, outs, post)
    # lemma: those bytes are the digits of the quotient (induction over the prefix: X the number of the bytes before, b the next)
    s = State(P)
    X, p, b = s.fresh_int('X'), s.fresh_int('p'), s.fresh_int('b')
    s.fact(z3.And(X >= 0, p >= 0, p <= 255, b >= 0, b <= 255))
    # the number of the bytes up to and including p is 256 X + p; the next quotient digit is that of (p, b)
    Y = 256 * X + p
    P.oblige(s, 'lemma.digits', (256 * Y + b) / 2 ** sh == 256 * (Y / 2 ** sh) + (p * 256 + b) / 2 ** sh % 256)
    s = State(P)
    b = s.fresh_int('b')
    s.fact(z3.And(b >= 0, b <= 255))
    P.oblige(s, 'lemma.first-digit', b / 2 ** sh == b / 2 ** sh % 256)


def derint(st, v):
    """the minimal DER encoding of a positive integer"""
    t = uf('derint', [tz(v)], core.U)
    l = uf('derlen', [tz(v)], INT)
    st.fact(uf('len', [t], INT) == l)
    st.fact(l >= 1)
    for n in (32, 48, 66):
        st.fact(z3.Implies(tz(v) < 256 ** n, l <= n + 1))
    return Seq([Lit((2, l)), Sub(t, 0, l)])


def addint(P):
    """addASN1IntBytes appends the minimal DER INTEGER of a number given in the byte length of a curve"""
    fn = R + 'addASN1IntBytes'
    P.unroll[fn] = 70
    for n in (32, 48, 66):
        P.prefix = 'addASN1IntBytes/%d/' % n
        st = State(P)
        bs = [st.fresh_int('b') for _ in range(n)]
        for b in bs:
            st.fact(z3.And(b >= 0, b <= 255))
        pre = st.fresh_seq('before')
        failed = st.fresh_bool('failed')
        o = Ptr(st.alloc(St(None, (pre, failed)), None))
        arg = P.newslice(st, Seq([Lit(tuple(bs))]))
        outs = nopanic(P, run(P, st, fn, [o, arg]), 'no-panic')

        def post(st, k, r):
            v = st.load(o)
            zero = z3.And(*[b == 0 for b in bs])
            if st.decide(zero):
                P.oblige(st, 'ensures.zero-is-an-error', v.f[1])
                return
            P.oblige(st, 'ensures.no-other-error', tz(eqt(v.f[1], failed)) if isz(v.f[1]) else False)
            rest = core.split_at(st, v.f[0], pre.len)
            P.oblige(st, 'ensures.appended', seq_eq(st, rest[0], pre))
            c = rest[1]
            P.oblige(st, 'ensures.tag', eqt(seq_get(st, c, 0), 2))
            l = c.len
            if isz(l):
                raise Unsupported('length of an integer')
            P.oblige(st, 'ensures.length-octet', And(eqt(seq_get(st, c, 1), l - 2), l - 2 < 128))
            d = [seq_get(st, c, j) for j in range(2, l)]
            # minimal and not negative
            P.oblige(st, 'ensures.positive', le(d[0], 127))
            if len(d) > 1:
                P.oblige(st, 'ensures.minimal', Not(And(eqt(d[0], 0), le(d[1], 127))))
            # the same number: the digits, right-aligned, and zero in the places that are dropped
            w = max(n, len(d))
            a, b = [0] * (w - n) + bs, [0] * (w - len(d)) + d
            P.oblige(st, 'ensures.same-number', And(*[eqt(x, y) for x, y in zip(a, b)]))
        forall(P, outs, post)
        reach(P, outs, 'reach.negative-avoided', lambda st, k, r: st.decide(bs[0] >= 128))


def addint_model(P, st, a, i):
    """contract of addASN1IntBytes for numbers in the byte length of a curve"""
    P.contracted = getattr(P, 'contracted', set()) | {R + 'addASN1IntBytes'}
    b, s = a[0], st.content(a[1])
    P.oblige(st, 'addASN1IntBytes.requires', not isz(s.len) and s.len in (32, 48, 66))
    x = os2ip(st, s)
    v = st.load(b)
    if st.decide(eqt(x, 0)):
        st.store(b, St(v.ty, (v.f[0], True) + v.f[2:]))
        return ()
    st.store(b, St(v.ty, (v.f[0] + derint(st, x),) + v.f[1:]))
    return ()


def dersig(st, r, s):
    body = derint(st, r) + derint(st, s)
    l = body.len
    return lit(b'\x30') + Seq([Lit((l,) if st.decide(lt(l, 128)) else (0x81, l))]) + body


def encodesig(P):
    P.models[R + 'addASN1IntBytes'] = addint_model
    for n in (32, 48, 66):
        P.prefix = 'encodeSignature/%d/' % n
        st = State(P)
        r, s = st.fresh_int('r'), st.fresh_int('s')
        st.fact(z3.And(r >= 0, s >= 0, r < 256 ** n, s < 256 ** n))
        outs = nopanic(P, run(P, st, R + 'encodeSignature', [P.newslice(st, be(n, r)), P.newslice(st, be(n, s))]), 'no-panic')

        def post(st, k, res):
            b, err = res
            ok = st.decide(z3.And(r > 0, s > 0))
            P.oblige(st, 'ensures.error-iff-zero', eqt(isnil(st, err), ok))
            if ok:
                P.oblige(st, 'ensures.der', seq_eq(st, st.content(b), dersig(st, r, s)))
        forall(P, outs, post)


NONCE = 'nonce'


def nonce(st, cur, d, e, hid):
    """the nonce of RFC 6979 3.2 for key d, reduced digest e and hash: the first acceptable candidate (units DRBG, randomPoint)"""
    k = uf('nonce:' + cur.name, [tz(d), tz(e), tz(hid)], INT)
    st.fact(z3.And(k > 0, k < cur.N))
    return k


def xcoord(st, cur, k):
    """the x coordinate of k*G, a field element"""
    x = uf('xcoord' + cur.name, [tz(k)], INT)
    st.fact(z3.And(x >= 0, x < cur.p))
    return x


def bytesx(cur):
    def f(P, st, a, i):
        k = val(st, a[0])
        if st.decide(eqt(k, 0)):
            return (P.zero(st, i['results'][0]), newerr(st))
        return (bytesv(P, st, Seq([Enc('be', cur.n, xcoord(st, cur, k))])), NILIF)
    return f


def sign(name):
    def u(P):
        cur = Cur(name)
        P.prefix = 'signNISTEC[%s]/' % name
        install(P, cur)
        st = State(P)
        c = curve(P, st, cur)
        k, d = key(P, st, cur)
        h = st.fresh_seq('digest')
        hid = st.fresh_int('hash')
        own = P.newslice(st, h)

        def htn(P, st, a, i):
            P.contracted = getattr(P, 'contracted', set()) | {R + 'hashToNat'}
            P.oblige(st, 'hashToNat.requires.curve', term(a[0]).eq(term(c)))
            st.store(a[1], St(None, (reduced(st, cur, st.content(a[2])),)))
            return ()
        P.models[cur.fn('hashToNat')] = htn

        def drbg(P, st, a, i):
            P.contracted = getattr(P, 'contracted', set()) | {R + 'rfc6979DRBG'}
            P.oblige(st, 'rfc6979DRBG.requires.curve', term(a[0]).eq(term(c)))
            P.oblige(st, 'rfc6979DRBG.requires.key', term(a[1]).eq(term(k)))
            return (core.Clo('verif.drbg', (val(st, a[2]), a[3])),)
        P.models[cur.fn('rfc6979DRBG')] = drbg

        def rp(P, st, a, i):
            P.contracted = getattr(P, 'contracted', set()) | {R + 'randomPoint'}
            P.oblige(st, 'randomPoint.requires.curve', term(a[0]).eq(term(c)))
            f = a[1]
            if not (isinstance(f, core.Clo) and f.fn == 'verif.drbg'):
                raise Unsupported('another source of nonces')
            x = nonce(st, cur, d, f.b[0], f.b[1])
            return (newval(st, x), newval(st, x), NILIF)
        P.models[cur.fn('randomPoint')] = rp
        P.models['(%s).BytesX' % cur.pt] = bytesx(cur)

        def enc(P, st, a, i):
            P.contracted = getattr(P, 'contracted', set()) | {R + 'encodeSignature'}
            r, s = st.content(a[0]), st.content(a[1])
            P.oblige(st, 'encodeSignature.requires.length', And(eqt(r.len, cur.n), eqt(s.len, cur.n)))
            r, s = os2ip(st, r), os2ip(st, s)
            if st.decide(Or(eqt(r, 0), eqt(s, 0))):
                return (P.zero(st, i['results'][0]), newerr(st))
            return (bytesv(P, st, dersig(st, r, s)), NILIF)
        P.models[R + 'encodeSignature'] = enc
        outs = nopanic(P, run(P, st, cur.fn('signNISTEC'), [c, k, own, hid]), 'no-panic')

        def post(st, kd, res):
            b, err = res
            unchanged(P, st, c)
            P.oblige(st, 'ensures.key-unchanged', eqt(P.bigint(st, fieldval(P, st, k, ECPRIV, 'D')), d))
            P.oblige(st, 'ensures.digest-unchanged', seq_eq(st, st.content(own), h))
            e = reduced(st, cur, h)
            kk = nonce(st, cur, d, e, hid)
            r = reduce(cur, xcoord(st, cur, kk))
            P.polyatoms[r.get_id()] = r
            re_ = poly_term(P, st, cur, padd(P, e, poly_term(P, st, cur, pmul(P, r, d))))
            s = poly_term(P, st, cur, pmul(P, power(st, cur, kk, cur.N - 2), re_))
            zero = Or(eqt(r, 0), eqt(s, 0))
            if st.decide(isnil(st, err)):
                P.oblige(st, 'ensures.ecdsa-signature', And(Not(zero), seq_eq(st, st.content(b), dersig(st, r, s))))
                return True
            P.oblige(st, 'ensures.error-only-if-r-or-s-is-zero', zero)
            return False
        forall(P, outs, post)
        reach(P, outs, 'reach.signed', post)
    return u


def reduced(st, cur, h):
    """bits2int(h) mod N"""
    e = uf('h2n' + cur.name, [core.reifyst(st, h)], INT)
    st.fact(z3.And(e >= 0, e < cur.N))
    return e


UNITS = [('hashToNat ' + c, hashtonat(c)) for c in CURVES] + [('rightShift', rightshift), ('addASN1IntBytes', addint), ('encodeSignature', encodesig)] + \
    [('signNISTEC ' + c, sign(c)) for c in CURVES]


# ------------------------------------------------------------ the nonce: rejection sampling

def params_model(P, cur):
    """the parameters of a curve (crypto/elliptic), identified by the curve value"""
    t = 'crypto/elliptic.CurveParams'

    def f(P, st, a, i):
        v = a[0]
        if isinstance(v, Iface):
            v = v.v
        k = term(v).sexpr()
        for n in CURVES:
            if k.strip('|').endswith('curve:' + n):
                return (curveparams(P, st, n),)
        raise Unsupported('parameters of another curve: %s' % k)
    P.imodels[('crypto/elliptic.Curve', 'Params')] = f
    P.models['crypto/elliptic.P256'] = lambda P, st, a, i: (SymIface(uf('nn:curve:P256', [], core.U)),)
    P.models['crypto/elliptic.P384'] = lambda P, st, a, i: (SymIface(uf('nn:curve:P384', [], core.U)),)
    P.models['crypto/elliptic.P521'] = lambda P, st, a, i: (SymIface(uf('nn:curve:P521', [], core.U)),)


def curveparams(P, st, n):
    t = 'crypto/elliptic.CurveParams'
    p = Ptr(SymObj(uf('nn:params:' + n, [], core.U), P.tid[t]))
    c = CURVES[n]
    if n in st.ghost.get('params', ()):
        return p
    st.ghost['params'] = st.ghost.get('params', ()) + (n,)
    st.store(Ptr(p.obj, (fidx(P, t, 'Name'),)), Seq([Lit(tuple(b'P-' + n[1:].encode()))]))
    x = newval(st, c['N'])
    st.store(Ptr(p.obj, (fidx(P, t, 'N'),)), x)
    st.store(Ptr(p.obj, (fidx(P, t, 'BitSize'),)), c['bits'])
    return p


def point_models(P, cur):
    def sbm(P, st, a, i):
        """the multiple of the generator; the scalar is given in the byte length of the field"""
        s = st.content(a[1])
        if not st.entails(eqt(s.len, cur.n)):
            raise Unsupported('scalar of another length')
        st.store(a[0], St(None, (os2ip(st, s),)))
        return (a[0], NILIF)
    P.models['(%s).ScalarBaseMult' % cur.pt] = sbm


def candidate(st, cur, j):
    t = uf('cand', [tz(j)], core.U)
    st.fact(uf('len', [t], INT) == cur.n)
    return Seq([Sub(t, 0, cur.n)])


def rejected(st, cur, j):
    v = bits2int(st, cur, candidate(st, cur, j))
    return Or(eqt(v, 0), ge(v, cur.N))


def randompoint(name):
    def u(P):
        cur = Cur(name)
        P.prefix = 'randomPoint[%s]/' % name
        install(P, cur)
        params_model(P, cur)
        point_models(P, cur)
        P.models[R + 'rightShift'] = shift_model
        st = State(P)
        curveparams(P, st, name)
        c = curve(P, st, cur)
        # the hook of the tests: set or not, it only counts
        P.models['symfn'] = lambda P, st, f, a, i: ()
        fails = st.fresh_int('failsat')     # the call of the source that fails, if any
        rerr = SymIface(nn(st, 'randerr'))
        m = st.fresh_int('m')
        J = st.fresh_int('J')
        st.fact(z3.And(m >= 0, J >= 0))
        st.ghost['j'] = 0
        fn = cur.fn('randomPoint')

        def rand(P, st, a, i):
            j = st.ghost['j']
            b = a[0]
            P.oblige(st, 'candidate.length', eqt(b.len, cur.n))
            st.ghost['j'] = add(j, 1)
            if st.decide(eqt(fails, j)):
                st.ghost['failed'] = True
                return (rerr,)
            P.copy(st, b, candidate(st, cur, j))
            return (NILIF,)
        P.models['verif.rand'] = rand

        def check(st, phis, when):
            j = st.ghost['j']
            P.oblige(st, 'invariant.%s.every-candidate-so-far-is-out-of-range' % when, z3.Implies(tz(lt(m, j)), tz(rejected(st, cur, m))))
            P.oblige(st, 'invariant.%s.no-failure' % when, not st.ghost.get('failed'))

        def make(st, phis):
            st.ghost['j'] = J
            st.fact(z3.Implies(m < J, tz(rejected(st, cur, m))))
            vals, objs = {}, set()
            for i, v in phis:
                vals[i['r']] = P.fresh(st, i['t'], 'any')
            for o, v in list(st.heap.items()):
                if isinstance(v, St) and v.ty is None and len(v.f) == 1 and not isinstance(v.f[0], Seq):
                    st.heap[o] = St(None, (st.fresh_int('nat'),))
                    objs.add(o)
            return vals, objs
        P.loop_hook[fn] = lambda P, f, L, it: loops.cut_loop(P, f, L, it, make, check)
        outs = nopanic(P, run(P, st, fn, [c, core.Clo('verif.rand')]), 'no-panic')

        def post(st, kd, res):
            k, p, err = res
            j = st.ghost['j']
            unchanged(P, st, c)
            if st.ghost.get('failed'):
                P.oblige(st, 'ensures.source-error-reported', Not(isnil(st, err)))
                return False
            P.oblige(st, 'ensures.succeeds', isnil(st, err))
            last = sub(j, 1)
            v = bits2int(st, cur, candidate(st, cur, last))
            P.oblige(st, 'ensures.last-candidate', And(eqt(val(st, k), v), lt(0, v), lt(v, cur.N)))
            P.oblige(st, 'ensures.first-acceptable', z3.Implies(tz(lt(m, last)), tz(rejected(st, cur, m))))
            P.oblige(st, 'ensures.point', eqt(val(st, p), v))
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.point', post)
        reach(P, outs, 'reach.error', lambda st, k, r: not post(st, k, r))
    return u


UNITS += [('randomPoint ' + c, randompoint(c)) for c in CURVES]


# ------------------------------------------------------------ the nonce: candidates of RFC 6979 3.2

HASHCTOR = {'crypto/md5.New': 2, 'crypto/sha1.New': 3, 'crypto/sha256.New224': 4, 'crypto/sha256.New': 5, 'crypto/sha512.New384': 6, 'crypto/sha512.New': 7}
HASHSIZE = {n: s for n, s in HASHES.values()}


def hmac_models(P):
    """HMAC (FIPS 198-1) as a function of hash, key and message. Every value it yields is a constant of the digest's
    length whose definition is kept aside: an execution from a state holding such values is an execution from any."""
    m = P.models

    def new(P, st, a, i):
        f = a[0]
        if isinstance(f, core.Clo) and f.fn == '(crypto.Hash).New$bound':
            h = f.b[0]
        elif isinstance(f, core.Clo) and f.fn in HASHCTOR:
            h = HASHCTOR[f.fn]
        else:
            raise Unsupported('hash constructor %r' % (f,))
        if isz(h) or h not in HASHSIZE:
            raise Unsupported('hash %r' % (h,))
        x = nn(st, 'hmac')
        st.ghost['hashstate'] = {**st.ghost.get('hashstate', {}), x.decl().name(): (h, st.content(a[1]), Seq())}
        return (SymIface(x),)
    m['crypto/hmac.New'] = new

    def get(st, h):
        d = st.ghost.get('hashstate', {})
        if not isinstance(h, SymIface) or h.t.decl().name() not in d:
            raise Unsupported('unknown hash')
        return d, h.t.decl().name()

    def write(P, st, a, i):
        d, k = get(st, a[0])
        h, key, msg = d[k]
        s = ext.seqof(st, a[1])
        st.ghost['hashstate'] = {**d, k: (h, key, msg + s)}
        return (s.len, NILIF)
    P.imodels[('hash.Hash', 'Write')] = write
    P.imodels[('io.Writer', 'Write')] = write
    m['io.WriteString'] = lambda P, st, a, i: write(P, st, a, i)

    def reset(P, st, a, i):
        d, k = get(st, a[0])
        st.ghost['hashstate'] = {**d, k: d[k][:2] + (Seq(),)}
        return ()
    P.imodels[('hash.Hash', 'Reset')] = reset

    def hsum(P, st, a, i):
        d, k = get(st, a[0])
        s = mac(st, *d[k])
        if a[1].base is None:
            return (P.newslice(st, s, et=P.tid.get('uint8')),)
        return (P.append(st, a[1], s),)
    P.imodels[('hash.Hash', 'Sum')] = hsum
    P.imodels[('hash.Hash', 'Size')] = lambda P, st, a, i: (HASHSIZE[get(st, a[0])[0][get(st, a[0])[1]][0]],)
    m['(crypto.Hash).Size'] = lambda P, st, a, i: (HASHSIZE[a[0]],)


def mac(st, h, key, msg, create=True):
    """the value of HMAC, or None when the code never computed it"""
    defs = st.ghost.get('macs', ())
    for t, h2, k2, m2 in defs:
        if h2 == h and seq_eq(st, key, k2) is True and seq_eq(st, msg, m2) is True:
            return Seq([Sub(t, 0, HASHSIZE[h])])
    if not create:
        return None
    t = st.fresh_u('mac')
    st.fact(uf('len', [t], INT) == HASHSIZE[h])
    st.ghost['macs'] = defs + ((t, h, key, msg),)
    return Seq([Sub(t, 0, HASHSIZE[h])])


def shape(P, st, roots):
    """the objects reachable from a closure, up to the names of objects and of HMAC values: (structure, values)"""
    objs, holes, out = {}, [], []

    def hole(t):
        for n, x in enumerate(holes):
            if x.eq(t):
                return n
        holes.append(t)
        return len(holes) - 1

    def seq(s):
        r = []
        for p in s.p:
            if not isz(p.len) and p.len == 0:
                continue
            if isinstance(p, Sub) and z3.is_const(p.atom) and p.atom.decl().name().startswith('mac!'):
                r.append(('mac', hole(p.atom), str(p.off), str(p.len)))
            elif isinstance(p, Lit):
                r.append(('lit', tuple(str(x) for x in p.v)))
            else:
                r.append(('seq', term(Seq([p])).sexpr()))
        k = []      # adjacent literals are one
        for x in r:
            if k and x[0] == k[-1][0] == 'lit':
                k[-1] = ('lit', k[-1][1] + x[1])
            else:
                k.append(x)
        return tuple(k)

    def go(v):
        if isinstance(v, core.Clo):
            return ('clo', v.fn) + tuple(go(x) for x in v.b)
        if isinstance(v, Ptr):
            o = v.obj
            path = tuple(str(x) for x in v.path)
            if o in objs:
                return ('ref', objs[o]) + path
            objs[o] = len(objs)
            if isinstance(o, SymObj):
                return ('obj', o.t.sexpr(), path, go(st.heap[o]) if o in st.heap else None)
            return ('obj', objs[o], path, go(st.heap[o]))
        if isinstance(v, SliceV):
            if v.base is None:
                return ('slice', None)
            cap = str(v.cap)        # of a slice made by append: some number not below the length
            return ('slice', go(v.base), str(v.off), str(v.len), 'cap' if cap.startswith('cap!') else cap)
        if isinstance(v, St):
            return ('st',) + tuple(go(x) for x in v.f)
        if isinstance(v, tuple):
            return ('tup',) + tuple(go(x) for x in v)
        if isinstance(v, Seq):
            return seq(v)
        if isinstance(v, SymIface) and v.t.decl().name() in st.ghost.get('hashstate', {}):
            n = v.t.decl().name()
            if n in objs:
                return ('hash', objs[n])
            objs[n] = len(objs)
            h, k, m = st.ghost['hashstate'][n]
            return ('hash', objs[n], h, seq(k), seq(m))
        if isinstance(v, (int, bool, str)) or v is None:
            return v
        return ('term', term(v).sexpr())
    return go(roots), holes


def drbg(name, hname):
    hid, hl = HASHES[hname]

    def u(P):
        cur = Cur(name)
        P.prefix = 'rfc6979DRBG[%s,%s]/' % (name, hname)
        install(P, cur)
        hmac_models(P)
        fn = cur.fn('rfc6979DRBG')
        for f in (fn, fn + '$1'):
            P.unroll[f] = max(hl, cur.n) + 2
        st = State(P)
        c = curve(P, st, cur)
        k, d = key(P, st, cur)
        e0 = st.fresh_int('e')
        st.fact(z3.And(e0 >= 0, e0 < cur.N))
        e = newval(st, e0)
        x1 = Seq([Enc('be', cur.n, d)])
        h1 = Seq([Enc('be', cur.n, e0)])

        def call(st, f, n):
            """one request for a candidate: [(state, candidate)]"""
            b = P.newslice(st, Seq([Sub(fixed(st, 'buffer%d' % n, cur.n), 0, cur.n)]))
            r = []
            for y, kind, v in callclo(P, st, f, [b]):
                if kind != 'ret':
                    P.oblige(y, 'no-panic', False, str(v))
                    continue
                err = v[0] if isinstance(v, tuple) else v
                P.oblige(y, 'ensures.no-error', isnil(y, err))
                r.append((y, y.content(b)))
            return r

        def spec(st, K, V, got):
            """3.2.h: the candidate for K and V, and V after it; None when it was not computed"""
            T = Seq()
            while T.len < cur.n:
                V = mac(st, hid, K, V, False)
                if V is None:
                    return False, None
                T = T + V
            return seq_eq(st, got, seq_slice(st, T, 0, cur.n)), V
        outs = nopanic(P, run(P, st, fn, [c, k, e, hid]), 'no-panic')
        done = []

        def post(st, kd, r):
            f = r[0] if isinstance(r, tuple) else r
            if not isinstance(f, core.Clo):
                raise Unsupported('not a closure')
            one, zero = lit(b'\x01'), lit(b'\x00')
            V, K = lit(b'\x01' * hl), lit(b'\x00' * hl)
            for s1, T1 in call(st, f, 1):
                K1 = mac(s1, hid, K, V + zero + x1 + h1, False)
                V1 = K1 and mac(s1, hid, K1, V, False)
                K2 = V1 and mac(s1, hid, K1, V1 + one + x1 + h1, False)
                V2 = K2 and mac(s1, hid, K2, V1, False)
                P.oblige(s1, 'ensures.initial-K-and-V', bool(V2), 'HMAC_K(V || 0x00 || int2octets(x) || bits2octets(h1)) and the rest of 3.2.b-g')
                if not V2:
                    continue
                ok, W = spec(s1, K2, V2, T1)
                P.oblige(s1, 'ensures.first-candidate', ok)
                P.oblige(s1, 'ensures.key-unchanged', And(eqt(P.bigint(s1, fieldval(P, s1, k, ECPRIV, 'D')), d), eqt(val(s1, e), e0)))
                if not ok:
                    continue
                # further candidates: from the state the first one left, whose HMAC values are arbitrary constants
                sh1, holes1 = shape(P, s1, f)
                # a candidate for any K and V of the digest's length, as no fact but the length is known of either
                for s2, T2 in call(s1, f, 2):
                    K3 = mac(s2, hid, K2, W + zero, False)
                    V3 = K3 and mac(s2, hid, K3, W, False)
                    P.oblige(s2, 'ensures.next-K-and-V', bool(V3), 'K = HMAC_K(V || 0x00), V = HMAC_K(V)')
                    if not V3:
                        continue
                    ok, W2 = spec(s2, K3, V3, T2)
                    P.oblige(s2, 'ensures.next-candidate', ok)
                    P.oblige(s2, 'ensures.key-unchanged', And(eqt(P.bigint(s2, fieldval(P, s2, k, ECPRIV, 'D')), d), eqt(val(s2, e), e0)))
                    if not ok:
                        continue
                    sh2, holes2 = shape(P, s2, f)
                    same = sh1 == sh2 and len(holes1) == len(holes2)
                    # the same state, with the later K and V in the places of the earlier ones
                    pos = lambda hs, v: [n for n, t in enumerate(hs) if t.eq(v.p[0].atom)]
                    same = same and pos(holes1, K2) == pos(holes2, K3) and pos(holes1, W) == pos(holes2, W2)
                    same = same and len(pos(holes1, K2)) == 1 and len(pos(holes1, W)) == 1
                    P.oblige(s2, 'invariant.state-is-K-and-V', bool(same), 'the state after a candidate is K and V, as after the one before (induction over the candidates)')
                    # nothing is known of the constants but their length
                    known = [p for p in s1.pc if mentions(p, [K2.p[0].atom, W.p[0].atom]) and not byterange(p)]
                    P.oblige(s2, 'invariant.holds-for-any-K-and-V', not known, str(known)[:200])
                    done.append(1)
        forall(P, outs, post)
        reach(P, outs, 'reach.candidates', lambda st, kd, r: bool(done))
    return u


def byterange(f):
    """whether f says no more than that bytes are between 0 and 255"""
    z, rs, todo = z3.Solver(), [], [f]
    while todo:
        x = todo.pop()
        if x.decl().name() == 'at':
            rs.append(z3.And(x >= 0, x <= 255))
        else:
            todo.extend(x.children())
    z.add(rs)
    z.add(z3.Not(f))
    return z.check() == z3.unsat


def mentions(f, ts):
    """whether f says anything about ts but their lengths"""
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if any(x.eq(t) for t in ts):
            return True
        if x.decl().name() != 'len':
            todo.extend(x.children())
    return False


def fixed(st, name, n):
    t = z3.Const('fix:' + name, core.U)
    st.fact(uf('len', [t], INT) == n)
    return t


def callclo(P, st, f, args):
    """call a function value: [(state, kind, value)]"""
    return P.call(st, f, args, {'results': [P.tid['error']]})


UNITS += [('rfc6979DRBG %s %s' % (c, h), drbg(c, h)) for c in CURVES for h in ('SHA256', 'SHA1', 'SHA384', 'SHA512')]


# ------------------------------------------------------------ curve tables, dispatch and the TLS encoding

def table(name):
    """the table of a curve satisfies the invariant the other units assume, however often and in whatever order it is asked for"""
    def u(P):
        cur = Cur(name)
        P.prefix = 'curve-table[%s]/' % name
        install(P, cur)
        params_model(P, cur)
        t = R + 'nistCurve[%s]' % cur.pt
        m = P.models

        def once(P, st, a, i):
            k = term(a[0]).sexpr()
            if k in st.ghost.get('once', ()):
                return ()
            st.ghost['once'] = st.ghost.get('once', ()) + (k,)
            r = []
            for y, kd, v in P.call(st, a[1], [], {'results': []}):
                r.append((y, kd, () if kd == 'ret' else v))
            return r
        m['(*sync.Once).Do'] = once

        def modulus(P, st, a, i):
            v = P.bigint(st, a[0])
            if isz(v):
                raise Unsupported('symbolic modulus')
            if v <= 0 or v % 2 == 0:
                return (P.zero(st, i['results'][0]), newerr(st))
            x = nn(st, 'modulus')
            st.ghost['moduli'] = {**st.ghost.get('moduli', {}), x.decl().name(): v}
            return (Ptr(SymObj(x, P.tid[BM + 'Modulus'])), NILIF)
        m[BM + 'NewModulusFromBig'] = modulus
        for c in CURVES:
            m[NE + 'New%sPoint' % c] = lambda P, st, a, i, c=c: (st.ghost.__setitem__('points', st.ghost.get('points', ()) + (c,)), newval(st, 0))[1:]
        st = State(P)
        for c in CURVES:
            curveparams(P, st, c)
        fn = R + name.lower()
        outs = nopanic(P, run(P, st, fn, []), 'no-panic')

        def invariant(st, p, when):
            g = lambda f: fieldval(P, st, p, t, f)
            n = g('N')
            P.oblige(st, '%s.order' % when, isinstance(n, Ptr) and isinstance(n.obj, SymObj) and st.ghost.get('moduli', {}).get(n.obj.t.decl().name()) == cur.N)
            P.oblige(st, '%s.exponent-of-the-inverse' % when, eqt(os2ip(st, st.content(g('nMinus2'))), cur.N - 2))
            c = g('curve')
            P.oblige(st, '%s.curve' % when, term(c).sexpr().strip('|').endswith('curve:' + name))
            k = len(st.ghost.get('points', ()))
            for y, kd, v in P.call(st.clone(), g('newPoint'), [], {'results': [P.tid[cur.pt]]}):
                v = v[0] if isinstance(v, tuple) else v
                P.oblige(y, '%s.new-point' % when, kd == 'ret' and y.ghost.get('points', ())[k:] == (name,) and isinstance(v, Ptr) and v.obj not in st.heap)

        def post(st, kd, r):
            p = r[0] if isinstance(r, tuple) else r
            if not isinstance(p, Ptr):
                raise Unsupported('not a pointer')
            invariant(st, p, 'ensures.first-use')
            for y, kd, v in P.call_named(st, fn, [], {'results': [P.tid['*' + t]]}):
                v = v[0] if isinstance(v, tuple) else v
                P.oblige(y, 'ensures.no-panic-later', kd == 'ret')
                if kd == 'ret':
                    invariant(y, v, 'ensures.later-use')
            return True
        forall(P, outs, post)
        reach(P, outs, 'reach.table', lambda st, kd, r: True)
    return u


def dispatch(P):
    """Sign signs with the table of the curve of the key"""
    fn = R + 'Sign'
    for name in list(CURVES) + ['other']:
        P.prefix = 'Sign[%s]/' % name
        cur = Cur(name if name in CURVES else 'P256')
        install(P, cur)
        params_model(P, cur)
        pm = P.imodels[('crypto/elliptic.Curve', 'Params')]
        other = uf('nn:curve:unknown', [], core.U)

        def params(P, st, a, i):
            if term(a[0]).eq(term(SymIface(other))):
                return (Ptr(SymObj(uf('nn:params:unknown', [], core.U), P.tid['crypto/elliptic.CurveParams'])),)
            return pm(P, st, a, i)
        P.imodels[('crypto/elliptic.Curve', 'Params')] = params
        st = State(P)
        for c in CURVES:
            curveparams(P, st, c)
        st.fact(z3.Distinct(*[uf('nn:params:' + n, [], core.U) for n in list(CURVES) + ['unknown']]))
        k = Ptr(SymObj(nn(st, 'priv'), P.tid[ECPRIV]))
        st.store(Ptr(k.obj, (0, 0)), SymIface(uf('nn:curve:' + name, [], core.U) if name in CURVES else other))
        d = st.fresh_seq('digest')
        hid = st.fresh_int('hash')
        for c in CURVES:
            def tab(P, st, a, i, c=c):
                P.contracted = getattr(P, 'contracted', set()) | {R + c.lower()}
                return (Ptr(SymObj(uf('nn:table:' + c, [], core.U), P.tid[R + 'nistCurve[%s]' % Cur(c).pt])),)
            P.models[R + c.lower()] = tab

            def sg(P, st, a, i, c=c):
                P.contracted = getattr(P, 'contracted', set()) | {Cur(c).fn('signNISTEC')}
                st.ghost['signs'] = st.ghost.get('signs', ()) + ((c, a[0], a[1], st.content(a[2]), a[3]),)
                s = st.fresh_seq('sig')
                e = SymIface(st.fresh_u('sigerr'))
                st.ghost['result'] = (s, e)
                return (bytesv(P, st, s), e)
            P.models[Cur(c).fn('signNISTEC')] = sg
        outs = nopanic(P, run(P, st, fn, [k, P.newslice(st, d), hid]), 'no-panic')

        def post(st, kd, r):
            calls_ = st.ghost.get('signs', ())
            if name == 'other':
                P.oblige(st, 'ensures.unsupported-curve', And(Not(isnil(st, r[1])), not calls_))
                return
            ok = len(calls_) == 1
            P.oblige(st, 'ensures.signs-once', ok)
            if ok:
                c, tb, key_, dg, h = calls_[0]
                P.oblige(st, 'ensures.curve-of-the-key', c == name and isinstance(tb, Ptr) and term(tb).sexpr().count('table:' + name) == 1)
                P.oblige(st, 'ensures.key', term(key_).eq(term(k)))
                P.oblige(st, 'ensures.digest-and-hash', And(seq_eq(st, dg, d), eqt(h, hid)))
                s, e = st.ghost['result']
                P.oblige(st, 'ensures.result', And(eqt(term(r[1]), term(e)), Or(Not(isnil(st, e)), seq_eq(st, st.content(r[0]), s))))
        forall(P, outs, post)


def digitally(P):
    P.prefix = 'DigitallySign/'
    hash_models(P)
    P.models[R + 'Sign'] = rfc_sign
    st = State(P)
    k = Ptr(SymObj(nn(st, 'priv'), P.tid[ECPRIV]))
    msg = st.fresh_seq('message')
    outs = nopanic(P, run(P, st, SL + 'DigitallySign', [k, P.newslice(st, msg)]), 'no-panic')

    def post(st, kd, r):
        cs = [c for c in calls(st) if c[0] == 'Sign']
        P.oblige(st, 'ensures.signs-once', len(cs) == 1)
        if len(cs) != 1:
            return False
        if cs[0][2] != 'ok':
            P.oblige(st, 'ensures.error-reported', Not(isnil(st, r[1])))
            return False
        sig = ecdsasig(st, term(k), ext.sha256(st, msg))
        P.oblige(st, 'ensures.succeeds', isnil(st, r[1]))
        P.oblige(st, 'ensures.tls-encoding', seq_eq(st, st.content(r[0]), lit(b'\x04\x03') + be(2, sig.len) + sig))
        return True
    forall(P, outs, post)
    reach(P, outs, 'reach.signed', post)


UNITS += [('table ' + c, table(c)) for c in CURVES] + [('Sign', dispatch), ('DigitallySign', digitally)]

UNDER = [R + x for x in ('Sign', 'signNISTEC', 'hashToNat', 'rightShift', 'randomPoint', 'rfc6979DRBG', 'rfc6979DRBG$1', 'encodeSignature', 'addASN1IntBytes',
                         'p256', 'p384', 'p521', 'precomputeParams')] + [SL + 'DigitallySign']
ASSUMPTIONS = [
    'bigmod: Nat values are integers, Mul/Add/Sub/Exp compute modulo the modulus, SetBytes fails exactly for values not below it, SetOverflowingBytes for values of more bits',
    'nistec: ScalarBaseMult(k) yields k*G and no error for a scalar of the field length, BytesX its x coordinate (a field element), an error for the point at infinity',
    'math/big.Int.Bytes, FillBytes and Sub; crypto/elliptic parameters are those of FIPS 186-4; different curves have different parameter objects',
    'crypto/hmac is HMAC, a function of hash, key and message; sync.Once runs its function once and orders it before every return',
    'cryptobyte.Builder writes tag, definite length and body (the model covers bodies shorter than 256 bytes, which signatures are)',
    'a power to N-2 modulo the prime N is the inverse (Fermat)',
    'private keys satisfy 0 < D < N; termination of the rejection sampling is not claimed (each candidate is rejected with probability below 2^-31)',
]
REPLAY = [{'pkg': 'internal/rfc6979', 'file': 'c09_test.go', 'test': 'TestVerifC09$', 'with': ['vh_test.go']},
          {'pkg': 'internal/rfc6979', 'file': 'c09in_test.go', 'test': 'TestVerifC09Inner', 'with': ['vh_test.go', 'c09_test.go']},
          {'pkg': 'internal/sunlight', 'file': 'c09d_test.go', 'test': 'TestVerifC09TLS', 'with': ['vh_test.go']}]
