"""The sequencer's publishing stage: one arbitrary iteration of stageTwo from any state that satisfies its invariant.

The log is an infinite sequence of entries; `sh(x)` is the RFC 6962 hash stored at hash index x of that log, td(L,N,W) the
bytes of hash tile L/N of width W, TL(i) the data tile encoding of entry i, mth(n) the tree hash of its first n entries."""
from iomodels import *
from cryptomodels import *
from groups import install_errgroup
import core, loops
import exec as ex

S2 = CS + 'stageTwoData'
BK = CS + 'Bucket'
LWRP = CS + 'LogEntryWithReturnPath'
ENTRY = SL + 'LogEntry'
TWB = CS + 'tileWithBytes'
RHU = CS + 'RecordHashUpload'
DDU = CS + 'DedupeUpload'
TL = 'golang.org/x/mod/sumdb/tlog.'
TILE = TL + 'Tile'
U = core.U


# ------------------------------------------------------------------ vocabulary
def cnt(n, L):
    """entries of tile level L in a tree of size n: n >> 8L"""
    if not isz(L) and L == 0:
        return n
    return uf('levelentries', [tz(n), tz(L)], INT)


def cntfacts(st, n, L):
    c = tz(cnt(n, L))
    st.fact(z3.And(c >= 0, c <= tz(n)))
    st.fact(z3.Implies(tz(L) == 0, c == tz(n)))


def need(n, L):
    """level L has a partial rightmost tile"""
    return tz(cnt(n, L)) % 256 != 0


def shix(i):
    return uf('storedhashindex', [z3.IntVal(0), tz(i)], INT)


def sh(x):
    """the hash stored at index x"""
    return Seq([Sub(uf('sh', [tz(x)], U), 0, 32)])


def td(L, N, W):
    return Seq([Sub(uf('td', [tz(L), tz(N), tz(W)], U), 0, mul(32, W))])


def sby(x):
    return uf('storedwith', [tz(x)], INT)


def koff(x):
    return uf('storedrank', [tz(x)], INT)


def nst(i):
    return uf('nstored', [tz(i)], INT)


def coords(x):
    return [uf('tfi.' + c, [tz(x)], INT) for c in 'LNW']


def index_facts(st, x):
    """facts of tlog's numbering of stored hashes: x is hash number koff(x) stored with leaf sby(x), and lies in tile coords(x)"""
    L, N, W = coords(x)
    st.fact(z3.And(sby(x) >= 0, koff(x) >= 0, koff(x) < nst(sby(x)), tz(x) == shix(sby(x)) + koff(x),
                   L >= 0, L < 8, N >= 0, W >= 1, W <= 256))


def tlfam(P):
    f = getattr(P, '_tlfam', None)
    if f is None:
        k = z3.Int('ktl')
        t = uf('tileleaf', [k], U)
        l = uf('len', [t], INT)
        f = P._tlfam = core.Family(k, [(True, (Sub(t, 0, l),))], [l > 0], name='tileleaf')
        f._key = 'tileleaf'
    return f


def datatile(P, lo, hi):
    return Seq([core.Cat(tlfam(P), lo, hi)])


def is_datatile(P, st, c, lo, hi):
    """c is the encodings of entries lo..hi-1"""
    ps = c.p
    if not ps:
        return eqt(lo, hi)
    if len(ps) == 1 and isinstance(ps[0], core.Cat) and ps[0].fam is tlfam(P):
        return Or(And(eqt(ps[0].lo, lo), eqt(ps[0].hi, hi)), And(eqt(ps[0].lo, ps[0].hi), eqt(lo, hi)))
    return seq_eq(st, c, datatile(P, lo, hi))


def mktile(P, L, N, W, H=8):
    d = dict(H=H, L=L, N=N, W=W)
    t = P.tid[TILE]
    return St(t, [d[f['n']] for f in P.U(t)['fields']])


def tf(P, t, f):
    return t.f[fidx(P, TILE, f)]


def mktwb(P, st, L, N, W, content, cap=None):
    o = st.alloc(content, ('backing', P.tid['uint8'] if 'uint8' in P.tid else P.tid['byte']))
    l = content.len
    c = l
    if cap:
        c = st.fresh_int('cap')
        st.fact(c >= tz(l))
    t = P.tid[TWB]
    vals = {'Tile': mktile(P, L, N, W), 'Bytes': SliceV(Ptr(o), 0, l, c, False)}
    return St(t, [vals[f['n']] for f in P.U(t)['fields']])


def twb(P, v):
    return v.f[fidx(P, TWB, 'Tile')], v.f[fidx(P, TWB, 'Bytes')]


def tile_is(P, t, L, N, W):
    return And(eqt(tf(P, t, 'H'), 8), eqt(tf(P, t, 'L'), L), eqt(tf(P, t, 'N'), N), eqt(tf(P, t, 'W'), W))


def ack(what, *a):
    """outcome of storing an object: NIL when storage acknowledged it"""
    return uf('ack:' + what, [tz(x) if not (z3.is_expr(x)) else x for x in a], U) if a else z3.Const('ack:' + what, U)


class Two:
    """names of one run"""


# ------------------------------------------------------------------ edge tiles
def edge_law(P, T, size):
    """the rightmost tiles of a tree of that size: the data tile, and of every level with a partial tile that tile"""
    def law(st, mv, q, v):
        isdata = st.decide(eqt(q, -1))
        if isdata:
            if v is None:
                raise core.Infeasible()
            t, b = twb(P, v)
            N, W = tf(P, t, 'N'), tf(P, t, 'W')
            st.fact(tz(And(eqt(add(mul(256, N), W), size), ge(N, 0), ge(W, 0), le(W, 256))))
            return mktwb(P, st, -1, N, W, datatile(P, simp(mul(256, N)), size), True)
        cntfacts(st, size, q)
        if v is None:
            st.fact(z3.Implies(tz(q) >= 0, z3.Not(need(size, q))))
            return None
        t, b = twb(P, v)
        N, W = tf(P, t, 'N'), tf(P, t, 'W')
        c = tz(cnt(size, q))
        st.fact(tz(And(ge(N, 0), ge(W, 1), le(W, 256))))
        st.fact(z3.Implies(z3.And(tz(q) >= 0, need(size, q)), z3.And(tz(N) == c / 256, tz(W) == c % 256)))
        return mktwb(P, st, q, N, W, td(q, N, W))
    return law


def check_edges(P, T, st, mv, size, name):
    """mv is the edge of a tree of that size"""
    def data(s):
        v, ok = P.mapv_lookup(s, mv, -1, mv.vt)
        P.oblige(s, name + '.data-tile', ok)
        if ok:
            t, b = twb(P, v)
            N, W = tf(P, t, 'N'), tf(P, t, 'W')
            P.oblige(s, name + '.data-tile', And(tile_is(P, t, -1, N, W), eqt(add(mul(256, N), W), size), ge(W, 0), le(W, 256)))
            P.oblige(s, name + '.data-tile-bytes', is_datatile(P, s, s.content(b), mul(256, N), size))
            no_alias(P, s, b, name)
    P.all_paths(st.clone(), data)

    def level(s):
        q = T.q
        s.fact(q >= 0)
        cntfacts(s, size, q)
        level_facts(P, T, s, q)
        v, ok = P.mapv_lookup(s, mv, q, mv.vt)
        if not ok:
            P.oblige(s, name + '.hash-tile-kept', z3.Not(need(size, q)))
            return
        t, b = twb(P, v)
        N, W = tf(P, t, 'N'), tf(P, t, 'W')
        c = tz(cnt(size, q))
        P.oblige(s, name + '.hash-tile', And(tile_is(P, t, q, N, W), ge(N, 0), ge(W, 1), le(W, 256)))
        P.oblige(s, name + '.hash-tile-is-rightmost', z3.Implies(need(size, q), z3.And(tz(N) == c / 256, tz(W) == c % 256)))
        P.oblige(s, name + '.hash-tile-bytes', seq_eq(s, s.content(b), td(q, N, W)))
    P.all_paths(st.clone(), level)


def no_alias(P, s, b, name):
    if b.base is not None and b.base.obj in s.frozen:
        for path, fo, fl in s.frozen[b.base.obj]:
            P.oblige(s, name + '.does-not-share-memory-with-an-upload', fo is not None and Or(le(add(fo, fl), add(b.off, b.len)), eqt(fl, 0)))


def level_facts(P, T, st, q):
    """the new tiles of level q (contract of tlog.NewTiles)"""
    if st.ghost.get('new') is None:
        return
    old, new = st.ghost['old'], st.ghost['new']
    cntfacts(st, old, q)
    cntfacts(st, new, q)
    lp = lastpos(T, q)
    c = tz(cnt(new, q))
    t = tile_at(P, T, lp)
    st.fact(z3.Implies(z3.And(tz(q) >= 0, grown(st, q)), z3.And(lp >= 0, lp < T.nt, t[0] == tz(q), z3.Implies(need(new, q), z3.And(
        t[1] == c / 256, t[2] == c % 256)))))
    tile_facts(P, T, st, lp)


def grown(st, q):
    return tz(cnt(st.ghost['old'], q)) != tz(cnt(st.ghost['new'], q))


def lastpos(T, q):
    return uf('lasttile', [T.ts, tz(q)], INT)


def tile_at(P, T, j):
    return [uf('newtile.' + c, [T.ts, tz(j)], INT) for c in 'LNW']


def tile_facts(P, T, st, j):
    old, new = st.ghost['old'], st.ghost['new']
    L, N, W = tile_at(P, T, j)
    cntfacts(st, old, L)
    cntfacts(st, new, L)
    st.fact(z3.Implies(z3.And(tz(j) >= 0, tz(j) < T.nt), tz(And(
        ge(L, 0), lt(L, 8), ge(N, 0), ge(W, 1), le(W, 256), le(add(mul(256, N), W), cnt(new, L)), gt(mul(256, add(N, 1)), cnt(old, L)),
        grown(st, L), le(j, lastpos(T, L)), ge(lastpos(T, L), 0), lt(lastpos(T, L), T.nt)))))


# ------------------------------------------------------------------ models
def install_stagetwo(P, T):
    m = P.models
    install_errgroup(P)
    install_crypto(P)
    lw = P.tid[LWRP]
    tt = P.tid[TILE]

    def mklw(st, t, name, args):
        fs = P.U(t)['fields']
        v = St(t, [P.mk(st, f['t'], name + '.' + f['n'], args) for f in fs])
        if name == 'el' and args[0].eq(T.log):
            n = fidx(P, LWRP, 'entry')
            e = v.f[n]
            ef = list(e.f)
            ef[fidx(P, ENTRY, 'LeafIndex')] = simp(args[1])
            vf = list(v.f)
            vf[n] = St(e.ty, ef)
            v = St(t, vf)
        return v
    P.mkhooks[LWRP] = mklw

    def mkint(st, t, name, args):
        v = uf(name, args, INT)
        st.fact(z3.And(v >= -2 ** 63, v < 2 ** 63))
        if name == 'el' and args[0].eq(T.idx):
            index_facts(st, v)
            st.fact(v >= 0)
            f = st.ghost.get('req')
            if f is not None:
                st.fact(f(st, v))
        return v
    P.mkhooks['int64'] = mkint

    def mkt(st, t, name, args):
        if name == 'el' and args[0].eq(T.ts):
            tile_facts(P, T, st, args[1])
            return mktile(P, *tile_at(P, T, args[1]))
        return St(t, [P.mk(st, f['t'], name + '.' + f['n'], args) for f in P.U(t)['fields']])
    P.mkhooks[TILE] = mkt

    def entry_at(st, i):
        return P.mk(st, lw, 'el', [T.log, tz(i)]).f[fidx(P, LWRP, 'entry')]

    def logged(P, st, v, what):
        """v is an entry of the log: the one its leaf index names"""
        i = v.f[fidx(P, ENTRY, 'LeafIndex')]
        P.oblige(st, 'tree.%s.of-the-sequenced-entry' % what, val_eq(st, v, entry_at(st, i)))
        return i

    def mtl(P, st, args, i):
        """contract of (*LogEntry).MerkleTreeLeaf (C05): a function of the entry"""
        P.contracted = getattr(P, 'contracted', set()) | {'(*%sLogEntry).MerkleTreeLeaf' % SL}
        j = logged(P, st, st.load(args[0]), 'MerkleTreeLeaf')
        t = uf('mleaf', [tz(j)], U)
        l = uf('len', [t], INT)
        st.fact(l >= 0)
        return (bytesv(P, st, Seq([Sub(t, 0, l)])),)
    m['(*%sLogEntry).MerkleTreeLeaf' % SL] = mtl

    def rhash(P, st, args, i):
        c = st.content(args[0])
        if len(c.p) == 1 and isinstance(c.p[0], Sub) and c.p[0].atom.decl().name() == 'mleaf' and eqt(c.p[0].off, 0) is True:
            x = c.p[0].atom.arg(0)
            if eqt(c.len, uf('len', [c.p[0].atom], INT)) is True:
                return (sh(shix(x)),)
        return (Seq([Sub(st.fresh_u('hash'), 0, 32)]),)
    m[TL + 'RecordHash'] = rhash

    def atl(P, st, args, i):
        """contract of AppendTileLeaf (C05): appends the encoding of the entry, in place when there is room"""
        P.contracted = getattr(P, 'contracted', set()) | {SL + 'AppendTileLeaf'}
        j = logged(P, st, st.load(args[1]), 'AppendTileLeaf')
        return (P.append(st, args[0], datatile(P, j, simp(add(j, 1)))),)
    m[SL + 'AppendTileLeaf'] = atl

    def shi(P, st, args, i):
        v = uf('storedhashindex', [tz(args[0]), tz(args[1])], INT)
        st.fact(z3.And(v >= 0, v < 2 ** 60))
        return (v,)
    m[TL + 'StoredHashIndex'] = shi

    def tfi(P, st, args, i):
        P.oblige(st, 'tree.TileForIndex.height-8', eqt(args[0], 8))
        index_facts(st, args[1])
        return (mktile(P, *coords(args[1])),)
    m[TL + 'TileForIndex'] = tfi

    def hft(P, st, args, i):
        """assumed contract of tlog.HashFromTile: the hash at that index when the tile has it, an error otherwise"""
        t, data, x = args
        c = st.content(data)
        L, N, W = coords(x)
        g = lambda f: tf(P, t, f)
        index_facts(st, x)
        e = newerr(st, 'hashfromtile')
        fail = (P.zero(st, i['results'][0]), e)
        has = And(eqt(g('H'), 8), eqt(g('L'), L), eqt(g('N'), N), le(W, g('W')), le(g('W'), 256), ge(c.len, mul(32, g('W'))))
        if not st.decide(has):
            return fail
        if st.decide(seq_eq(st, c, td(g('L'), g('N'), g('W')))):
            return (sh(x), NILIF)
        return (Seq([Sub(st.fresh_u('hash'), 0, 32)]), NILIF)
    m[TL + 'HashFromTile'] = hft

    def askreader(P, st, rd, what, req):
        """prove of the reader: for every request within the contract of `what` it returns exactly the stored hashes"""
        s = st.clone()
        s.ghost['req'] = req
        idx = P.constslice(T.idxs)
        save = P.prefix
        P.prefix = save + 'hashReader(%s)/' % what
        try:
            for s2, k, r in P.call(s, rd.v if isinstance(rd, Iface) else rd, [idx], {'results': [P.tid['[]' + TL + 'Hash'], P.tid['error']]}):
                if k == 'panic':
                    P.oblige(s2, 'tree.no-panic', False, 'panic reachable: %s' % (r,))
                    continue

                def chk(s3, r=r):
                    P.oblige(s3, 'tree.has-every-hash-needed', isnil(s3, r[1]))
                    if not s3.decide(isnil(s3, r[1])):
                        return
                    hs = s3.content(r[0])
                    P.oblige(s3, 'tree.one-hash-per-index', eqt(hs.len, T.idxs.len))
                    s3.fact(tz(And(ge(T.w, 0), lt(T.w, T.idxs.len))))
                    if not s3.feasible():
                        return
                    for hy in s3.ghost.get('hyps', ()):
                        hy.at(s3, T.w)
                    P.oblige(s3, 'tree.hash-of-the-index', seq_eq(s3, seq_get(s3, hs, T.w), sh(seq_get(s3, T.idxs, T.w))))
                    T.seen.add(what)
                P.all_paths(s2, chk)
        finally:
            P.prefix = save

    def inedge(st, size, x):
        L, N, W = coords(x)
        cntfacts(st, size, L)
        c = tz(cnt(size, L))
        return z3.And(c % 256 != 0, N == c / 256, W <= c % 256)

    def within(x, lo, hi):
        return z3.And(sby(x) >= tz(lo), sby(x) < tz(hi))

    def shrh(P, st, args, i):
        """assumed contract of tlog.StoredHashesForRecordHash(n, h, r): given the record hash of leaf n and the hashes of the
        complete subtrees to its left, the hashes stored with leaf n"""
        n, h, rd = args
        old = st.ghost['old']
        P.oblige(st, 'tree.StoredHashesForRecordHash.record-hash', seq_eq(st, h, sh(shix(n))))
        P.oblige(st, 'tree.StoredHashesForRecordHash.of-the-next-leaf', And(ge(n, old)))
        askreader(P, st, rd, 'StoredHashesForRecordHash', lambda s, x: z3.Or(within(x, old, n), inedge(s, old, x)))
        c = nst(n)
        st.fact(z3.And(c >= 1, c <= 64))
        k = z3.Int('kst')
        b = shix(n)
        fam = core.Family(k, [(True, (Lit([sh(simp(b + k))]),))], [], elen=1, name='stored:%s' % b)
        fam._key = 'stored'
        fam.args = (b,)
        return (P.newslice(st, Seq([core.Cat(fam, 0, c)]), et=P.U(i['results'][0])['elem']), NILIF)
    m[TL + 'StoredHashesForRecordHash'] = shrh

    def newtiles(P, st, args, i):
        h, o, n = args
        P.oblige(st, 'tree.NewTiles.height-8', eqt(h, 8))
        P.oblige(st, 'tree.NewTiles.from-the-old-size', eqt(o, st.ghost['old']))
        P.oblige(st, 'tree.NewTiles.to-the-new-size', eqt(n, add(st.ghost['old'], st.ghost['n'])))
        st.ghost['new'] = simp(add(st.ghost['old'], st.ghost['n']))
        st.fact(z3.And(T.nt >= 1, T.nt < 2 ** 32))
        return (P.newslice(st, Seq([Sub(T.ts, 0, T.nt, tt)]), et=tt),)
    m[TL + 'NewTiles'] = newtiles

    def rtd(P, st, args, i):
        """assumed contract of tlog.ReadTileData: the bytes of the tile out of the hashes the reader returns"""
        t, rd = args
        old, new = st.ghost['old'], st.ghost.get('new')
        g = lambda f: tf(P, t, f)
        P.oblige(st, 'tree.ReadTileData.of-a-new-tile', new is not None and And(eqt(g('H'), 8), ge(g('L'), 0), ge(g('W'), 1), le(g('W'), 256)))
        if new is None:
            raise core.Infeasible()
        cntfacts(st, new, g('L'))
        cntfacts(st, old, g('L'))
        P.oblige(st, 'tree.ReadTileData.of-a-new-tile', And(le(add(mul(256, g('N')), g('W')), cnt(new, g('L'))), gt(mul(256, add(g('N'), 1)), cnt(old, g('L')))))
        askreader(P, st, rd, 'ReadTileData', lambda s, x: z3.Or(within(x, old, new), inedge(s, old, x)))
        return (bytesv(P, st, td(g('L'), g('N'), g('W'))), NILIF)
    m[TL + 'ReadTileData'] = rtd

    def treehash(P, st, args, i):
        """assumed contract of tlog.TreeHash: the root of the first n leaves out of the hashes the reader returns"""
        n, rd = args
        size = add(st.ghost['old'], st.ghost['n'])
        P.oblige(st, 'tree.TreeHash.of-the-new-size', eqt(n, size))
        askreader(P, st, rd, 'TreeHash', lambda s, x: z3.And(z3.Or(within(x, s.ghost['old'], size), z3.And(
            inedge(s, size, x), inedge(s, s.ghost['old'], x)))))
        return (Seq([Sub(uf('mth', [tz(n)], U), 0, 32)]), NILIF)
    m[TL + 'TreeHash'] = treehash

    def clone(P, st, args, i):
        mv = P.mapv(st, args[0])
        o = st.alloc(mv, i['results'][0])
        return (MapRef(o, i['results'][0]),)
    m['maps.Clone[map[int]%s, int, %s]' % (TWB, TWB)] = clone

    # ---- storage
    def settile(P, st, args, i):
        b, ctx, t, data = args
        c = st.content(data)
        g = lambda f: tf(P, t, f)
        L, N, W = g('L'), g('N'), g('W')
        own_bucket(P, T, st, b)
        P.oblige(st, 'tree.SetTile.height-8', eqt(g('H'), 8))
        size = add(st.ghost['old'], st.ghost['n'])
        if st.decide(eqt(L, -1)):
            P.oblige(st, 'tree.SetTile.data-tile-of-the-new-tree', And(ge(N, 0), ge(W, 1), le(W, 256), le(add(mul(256, N), W), size)))
            P.oblige(st, 'tree.SetTile.data-tile-bytes', is_datatile(P, st, c, mul(256, N), add(mul(256, N), W)))
        else:
            cntfacts(st, size, L)
            P.oblige(st, 'tree.SetTile.hash-tile-of-the-new-tree', And(ge(L, 0), ge(N, 0), ge(W, 1), le(W, 256), le(add(mul(256, N), W), cnt(size, L))))
            P.oblige(st, 'tree.SetTile.hash-tile-bytes', seq_eq(st, c, td(L, N, W)))
        P.oblige(st, 'stored.SetTile.before-the-tree-head', st.ghost.get('sth') is None)
        if data.base is not None:
            st.freeze(data.base, data.off, data.len)
        return (SymIface(ack('tile', L, N, W)),)
    B = '(*%s).' % BK
    m[B + 'SetTile'] = settile

    def prh(P, st, args, i):
        b, ctx, hs, mask = args
        own_bucket(P, T, st, b)
        c = st.content(hs)
        old, n = st.ghost['old'], st.ghost['n']
        P.oblige(st, 'stored.record-hashes.one-per-entry', eqt(c.len, n))
        P.oblige(st, 'stored.record-hashes.mask', eqt(mask, T.mask))
        s = st.clone()
        s.fact(tz(And(ge(T.m, 0), lt(T.m, n))))
        if s.feasible():
            def one(s):
                e = seq_get(s, c, T.m)
                ix = add(old, T.m)
                P.oblige(s, 'stored.record-hashes.of-the-entry', And(eqt(e.f[fidx(P, RHU, 'leafIndex')], ix), seq_eq(
                    s, e.f[fidx(P, RHU, 'hash')], core.seq_slice(s, sh(shix(ix)), 0, 16))))
            P.all_paths(s, one)
        return (SymIface(ack('recordhashes')),)
    m[B + 'PutRecordHashes'] = prh

    def setissuer(P, st, args, i):
        own_bucket(P, T, st, args[0])
        return (SymIface(ack('issuer', term(args[2]))),)
    m[B + 'SetIssuer'] = setissuer

    def covers(s, seq, target, hints):
        """seq holds outcomes that are all nil: then so is the outcome `target`. The elements are looked at at the hinted
        positions of repeated parts"""
        alts = [target == NIL]
        for p in seq.p:
            if isinstance(p, Lit):
                for x in p.v:
                    s.fact(term(x) == NIL)
            elif isinstance(p, core.Cat):
                for h in hints:
                    inb = And(le(p.lo, h), lt(h, p.hi))
                    if inb is False or not s.decide(inb):
                        continue
                    ps = p.fam.inst(s, h)
                    alts.append(covers(s, Seq(ps), target, [x for x in hints if x is not h]))
        return Or(*alts)

    def all_stored(P, st, what):
        """everything the new tree head covers was acknowledged"""
        n, old = st.ghost['n'], st.ghost['old']
        gn = st.ghost.get('gnil')
        if not st.decide(gt(n, 0)):
            return
        P.oblige(st, 'stored.%s.uploads-awaited' % what, gn is not None)
        if gn is None:
            return
        new = simp(add(old, n))

        def data(s):
            # the data tile of entry m
            s.fact(tz(And(ge(T.m, 0), lt(T.m, n))))
            if not s.feasible():
                return
            N = idiv(add(old, T.m), 256)
            full = s.decide(le(mul(256, add(N, 1)), new))
            W = 256 if full else sub(new, mul(256, N))
            k = sub(add(mul(256, N), 255), old)
            P.oblige(s, 'stored.%s.data-tile' % what, covers(s, gn, ack('tile', -1, N, W), [simp(tz(k))]))
        P.all_paths(st.clone(), data)

        def hashes(s):
            L, N = T.q, T.fN
            s.fact(z3.And(L >= 0, N >= 0))
            cntfacts(s, old, L)
            cntfacts(s, new, L)
            W = tz(core.minz(256, sub(cnt(new, L), mul(256, N)))) if hasattr(core, "minz") else z3.If(tz(cnt(new, L)) - 256 * N < 256, tz(cnt(new, L)) - 256 * N, 256)
            s.ghost['new'] = new
            s.fact(tz(And(tz(cnt(old, L)) != tz(cnt(new, L)), ge(mul(256, add(N, 1)), add(cnt(old, L), 1)), lt(mul(256, N), cnt(new, L)))))
            pos = uf('tilepos', [T.ts, tz(L), tz(N)], INT)
            t = tile_at(P, T, pos)
            s.fact(z3.And(pos >= 0, pos < T.nt, t[0] == L, t[1] == N, t[2] == W))
            tile_facts(P, T, s, pos)
            if s.feasible():
                P.oblige(s, 'stored.%s.hash-tile' % what, covers(s, gn, ack('tile', L, N, W), [pos]))
        P.all_paths(st.clone(), hashes)
        P.oblige(st, 'stored.%s.record-hashes' % what, covers(st, gn, ack('recordhashes'), []))

        def issuer(s):
            s.fact(tz(And(ge(T.m, 0), lt(T.m, n))))
            if not s.feasible():
                return
            ch = s.content(entry_at(s, add(old, T.m)).f[fidx(P, ENTRY, 'Chain')])
            s.fact(tz(And(ge(T.c, 0), lt(T.c, ch.len))))
            if s.feasible():
                cert = seq_get(s, ch, T.c)
                P.oblige(s, 'stored.%s.issuers' % what, covers(s, gn, ack('issuer', term(cert)), [T.m, T.c]))
        P.all_paths(st.clone(), issuer)

    def signth(P, st, args, i):
        """contract of SignTreeHead (C20): the get-sth object of that size, time and root, signed with that key, or an error"""
        P.contracted = getattr(P, 'contracted', set()) | {SL + 'SignTreeHead'}
        k, size, ts, root = args
        sz = add(st.ghost['old'], st.ghost['n'])
        P.oblige(st, 'tree.SignTreeHead.size', eqt(size, sz))
        P.oblige(st, 'tree.SignTreeHead.root', seq_eq(st, root, Seq([Sub(uf('mth', [tz(sz)], U), 0, 32)])))
        P.oblige(st, 'tree.SignTreeHead.key', term(k) == T.key)
        st2 = st.clone()
        st.ghost['sthbytes'] = uf('sthbytes', [tz(sz), tz(ts)], U)
        l = uf('len', [st.ghost['sthbytes']], INT)
        st.fact(l >= 0)
        return [(st, 'ret', (bytesv(P, st, Seq([Sub(st.ghost['sthbytes'], 0, l)])), NILIF)),
                (st2, 'ret', (P.zero(st2, i['results'][0]), newerr(st2, 'signth')))]
    m[SL + 'SignTreeHead'] = signth

    def signcp(P, st, args, i):
        """contract of SignTreeHeadCheckpoint (C10): the checkpoint of that origin, size, time and root, or an error"""
        P.contracted = getattr(P, 'contracted', set()) | {SL + 'SignTreeHeadCheckpoint'}
        origin, k, size, ts, root = args
        sz = add(st.ghost['old'], st.ghost['n'])
        P.oblige(st, 'tree.SignTreeHeadCheckpoint.size', eqt(size, sz))
        P.oblige(st, 'tree.SignTreeHeadCheckpoint.root', seq_eq(st, root, Seq([Sub(uf('mth', [tz(sz)], U), 0, 32)])))
        P.oblige(st, 'tree.SignTreeHeadCheckpoint.key', term(k) == T.key)
        P.oblige(st, 'tree.SignTreeHeadCheckpoint.origin', seq_eq(st, origin, T.origin))
        st2 = st.clone()
        st.ghost['cpbytes'] = uf('cpbytes', [tz(sz), tz(ts)], U)
        l = uf('len', [st.ghost['cpbytes']], INT)
        st.fact(l >= 0)
        return [(st, 'ret', (bytesv(P, st, Seq([Sub(st.ghost['cpbytes'], 0, l)])), NILIF)),
                (st2, 'ret', (P.zero(st2, i['results'][0]), newerr(st2, 'signcp')))]
    m[SL + 'SignTreeHeadCheckpoint'] = signcp

    def isatom(st, c, t):
        return t is not None and len(c.p) == 1 and isinstance(c.p[0], Sub) and And(c.p[0].atom == t, eqt(c.p[0].off, 0), eqt(c.len, uf('len', [t], INT)))

    def setsth(P, st, args, i):
        own_bucket(P, T, st, args[0])
        all_stored(P, st, 'SetSth')
        P.oblige(st, 'tree.SetSth.signed-tree-head', isatom(st, st.content(args[2]), st.ghost.get('sthbytes')))
        st.ghost['sth'] = True
        T.seen.add('sth')
        return (SymIface(ack('sth')),)
    m[B + 'SetSth'] = setsth

    def setcp(P, st, args, i):
        own_bucket(P, T, st, args[0])
        all_stored(P, st, 'SetCheckpoint')
        P.oblige(st, 'tree.SetCheckpoint.signed-checkpoint', isatom(st, st.content(args[2]), st.ghost.get('cpbytes')))
        st.ghost['cp'] = True
        return (SymIface(ack('checkpoint')),)
    m[B + 'SetCheckpoint'] = setcp

    def pde(P, st, args, i):
        b, ctx, hs, mask = args
        own_bucket(P, T, st, b)
        c = st.content(hs)
        old, n = st.ghost['old'], st.ghost['n']
        P.oblige(st, 'dedupe.one-per-entry', eqt(c.len, n))
        P.oblige(st, 'dedupe.mask', eqt(mask, T.mask))
        s = st.clone()
        s.fact(tz(And(ge(T.m, 0), lt(T.m, n))))
        if s.feasible():
            def one(s):
                e = seq_get(s, c, T.m)
                ix = add(old, T.m)
                w = entry_at(s, ix)
                g = lambda f: e.f[fidx(P, DDU, f)]
                fp = w.f[fidx(P, ENTRY, 'CertificateFp')]
                P.oblige(s, 'dedupe.of-the-entry', And(eqt(g('leafIndex'), ix), eqt(g('timestamp'), w.f[fidx(P, ENTRY, 'Timestamp')]),
                                                       seq_eq(s, g('hash'), core.seq_slice(s, fp, 0, 16))))
            P.all_paths(s, one)
        P.oblige(st, 'dedupe.after-the-tree-head', And(st.ghost.get('sth') is True and st.ghost.get('cp') is True, ack('sth') == NIL, ack('checkpoint') == NIL))
        st.ghost['dd'] = True
        return (SymIface(ack('dedupe')),)
    m[B + 'PutDedupeEntries'] = pde
    T.all_stored = all_stored
    T.entry_at = entry_at


def own_bucket(P, T, st, b):
    P.oblige(st, 'stored.in-the-log-bucket', isinstance(b, Ptr) and b.obj == T.d.obj and len(b.path) >= 1 and b.path[0] == fidx(P, S2, 'bucket'))


# ------------------------------------------------------------------ loops
def install_shapes(P, T):
    def factory(P, st, v0, k, id):
        """the data tile being filled: entries 256*((old+k)/256) .. old+k-1"""
        old = st.ghost.get('old')
        if old is None or not isinstance(v0, St) or len(st.ctx) != 1:
            return None
        t, b = twb(P, v0)
        N0, W0 = idiv(old, 256), tz(old) % 256
        if not st.entails(And(tile_is(P, t, -1, N0, W0), is_datatile(P, st, st.content(b), mul(256, N0), old))):
            return None
        x = lambda kk: simp(tz(add(old, kk)))
        N = lambda kk: simp(x(kk) / 256)
        W = lambda kk: simp(x(kk) % 256)
        lo = lambda kk: simp(256 * (x(kk) / 256))
        val = mktwb(P, st, -1, N(k), W(k), datatile(P, lo(k), x(k)), True)

        def chk(s, v, kk):
            t, b = twb(P, v)
            if b.base is not None and b.base.obj in s.frozen:
                return False
            return And(tile_is(P, t, -1, N(kk), W(kk)), is_datatile(P, s, s.content(b), lo(kk), x(kk)))
        return val, chk
    P.shapes.append((TWB, factory))

    def hashlaw(kind, k, k0=None):
        def law(st, mv, x, v):
            old = st.ghost['old']
            index_facts(st, x)
            s = sby(x)
            inr = z3.And(s >= tz(old), s < tz(add(old, k0 if k0 is not None else k)))
            if k0 is not None:
                inr = z3.Or(inr, z3.And(s == tz(add(old, k0)), koff(x) < tz(k)))
            if v is None:
                st.fact(z3.Not(inr))
                return None
            return sh(x)
        law.kind, law.k, law.k0 = kind, k, k0
        return law

    def midlaw(k):
        def law(st, mv, q, v):
            old, new = st.ghost['old'], st.ghost['new']
            if st.decide(eqt(q, -1)):
                if v is None:
                    raise core.Infeasible()
                t, b = twb(P, v)
                N, W = tf(P, t, 'N'), tf(P, t, 'W')
                st.fact(tz(And(eqt(add(mul(256, N), W), new), ge(N, 0), ge(W, 0), le(W, 256))))
                return mktwb(P, st, -1, N, W, datatile(P, simp(mul(256, N)), new), True)
            level_facts(P, T, st, q)
            lp = lastpos(T, q)
            done = z3.And(tz(q) >= 0, grown(st, q), lp < tz(k))
            kept = z3.And(tz(q) >= 0, z3.Not(grown(st, q)), need(old, q))
            if v is None:
                st.fact(z3.And(z3.Not(done), z3.Not(kept)))
                return None
            t, b = twb(P, v)
            N, W = tf(P, t, 'N'), tf(P, t, 'W')
            c = tz(cnt(old, q))
            x = tile_at(P, T, lp)
            st.fact(tz(And(ge(N, 0), ge(W, 1), le(W, 256))))
            st.fact(z3.And(z3.Implies(done, z3.And(tz(N) == x[1], tz(W) == x[2])), z3.Implies(kept, z3.And(tz(N) == c / 256, tz(W) == c % 256))))
            return mktwb(P, st, q, N, W, td(q, N, W))
        law.kind, law.k = 'edges', k
        return law

    def check_mid(st, mv, k, name):
        old, new = st.ghost['old'], st.ghost['new']

        def data(s):
            v, ok = P.mapv_lookup(s, mv, -1, mv.vt)
            P.oblige(s, name + '.data-tile', ok)
            if ok:
                t, b = twb(P, v)
                N, W = tf(P, t, 'N'), tf(P, t, 'W')
                P.oblige(s, name + '.data-tile', And(tile_is(P, t, -1, N, W), eqt(add(mul(256, N), W), new), ge(W, 0), le(W, 256)))
                P.oblige(s, name + '.data-tile-bytes', is_datatile(P, s, s.content(b), mul(256, N), new))
        P.all_paths(st.clone(), data)

        def level(s):
            q = T.q
            s.fact(q >= 0)
            level_facts(P, T, s, q)
            lp = lastpos(T, q)
            done = z3.And(grown(s, q), lp < tz(k))
            kept = z3.And(z3.Not(grown(s, q)), need(old, q))
            v, ok = P.mapv_lookup(s, mv, q, mv.vt)
            if not ok:
                P.oblige(s, name + '.hash-tile-present', z3.And(z3.Not(done), z3.Not(kept)))
                return
            t, b = twb(P, v)
            N, W = tf(P, t, 'N'), tf(P, t, 'W')
            c = tz(cnt(old, q))
            x = tile_at(P, T, lp)
            P.oblige(s, name + '.hash-tile', And(tile_is(P, t, q, N, W), ge(N, 0), ge(W, 1), le(W, 256)))
            P.oblige(s, name + '.hash-tile-bytes', seq_eq(s, s.content(b), td(q, N, W)))
            P.oblige(s, name + '.hash-tile-newest', z3.And(z3.Implies(done, z3.And(tz(N) == x[1], tz(W) == x[2])),
                                                           z3.Implies(kept, z3.And(tz(N) == c / 256, tz(W) == c % 256))))
        P.all_paths(st.clone(), level)

    def check_hashes(st, mv, law, name):
        def one(s):
            x = T.x
            index_facts(s, x)
            v, ok = P.mapv_lookup(s, mv, x, mv.vt)
            if ok:
                P.oblige(s, name + '.stored-hash', seq_eq(s, v, sh(x)))
            else:
                # the law's own condition, as an obligation
                old = s.ghost['old']
                sb = sby(x)
                k0 = law.k0
                inr = z3.And(sb >= tz(old), sb < tz(add(old, k0 if k0 is not None else law.k)))
                if k0 is not None:
                    inr = z3.Or(inr, z3.And(sb == tz(add(old, k0)), koff(x) < tz(law.k)))
                P.oblige(s, name + '.every-stored-hash', z3.Not(inr))
        P.all_paths(st.clone(), one)

    def shape(C, st, v0, id):
        s0 = C.S0.ghost
        if s0.get('old') is None:
            return None
        vt = P.T(v0.vt)['s']
        if vt == TWB:
            if s0.get('new') is None:
                return None
            mk = lambda k: midlaw(k)
            check_ = lambda s, mv, k, name: check_mid(s, mv, k, name)
        elif vt == TL + 'Hash':
            if v0.base is None and not v0.upd and not C.S0.ctx:
                mk = lambda k: hashlaw('leaves', k)
            elif not v0.upd and v0.laws and getattr(v0.laws[0], 'kind', '') == 'leaves':
                l0 = v0.laws[0]
                mk = lambda k: hashlaw('rank', k, l0.k)
            else:
                return None
            check_ = lambda s, mv, k, name: check_hashes(s, mv, mk(k), name)
        else:
            return None
        if not hasattr(C, 'mapchk2'):
            C.mapchk2 = {}
        if id not in C.mapchk2:
            C.mapchk2[id] = check_
            check_(C.S0.clone(), v0, 0, 'tree.loop-entry')
        mv = MapV(st.fresh_u('lmap'), (), v0.kt, v0.vt, (mk(C.k),))
        lf = loops.Leaf(id, 'map', v0, mv)
        C.leaves.append(lf)
        return mv

    def trans(C, lf, bv):
        ck = getattr(C, 'mapchk2', {}).get(lf.id)
        if ck is None:
            return False
        for y, v in bv:
            ck(y.st.clone(), v, add(C.k, 1), 'tree.loop-kept')
        return False
    P.mapshape, P.map_transition = shape, trans


# ------------------------------------------------------------------ the unit
def stagetwo(P):
    P.prefix = 'stageTwo/'
    T = Two()
    T.seen = set()
    st = State(P)
    fn = '(*%s).stageTwo' % S2
    T.log = st.fresh_u('log')
    T.idx = st.fresh_u('wanted')
    T.ts = st.fresh_u('newtiles')
    T.nt = st.fresh_int('nnewtiles')
    T.m, T.c, T.q, T.fN, T.x, T.w = [st.fresh_int(x) for x in ('m', 'c', 'q', 'N', 'x', 'w')]
    ni = st.fresh_int('nwanted')
    st.fact(z3.And(ni >= 0, ni < 2 ** 32, T.q < 8))
    T.idxs = Seq([Sub(T.idx, 0, ni, P.tid['int64'])])
    d = T.d = Ptr(SymObj(nn(st, 'd'), P.tid[S2]))
    fp = lambda f: Ptr(d.obj, (fidx(P, S2, f),))
    ld = lambda st, f: st.load(fp(f))
    rx = ld(st, 'stageTwoRx')
    T.mask, T.origin, T.key = ld(st, 'maskSize'), ld(st, 'checkpointOrigin'), term(ld(st, 'signingKey'))
    ctx = SymIface(nn(st, 'ctx'))
    install_stagetwo(P, T)
    install_shapes(P, T)
    done = ChanV(st.fresh_u('ctxdone'), None)
    P.imodels[('context.Context', 'Done')] = lambda P, st, args, i: (ChanV(done.t, P.U(i['results'][0])['elem']),)
    P.imodels[('context.Context', 'Err')] = lambda P, st, args, i: (newerr(st),)
    size = st.fresh_int('treesize')
    st.fact(z3.And(size >= 0, size < 2 ** 55))
    lw = P.tid[LWRP]

    def recv(P, st, ch, i):
        if ch.t.eq(rx.t):
            a, b = st, st.clone()
            P.oblige(a, 'invariant.one-batch-at-a-time', a.ghost.get('old') is None)
            n = a.fresh_int('batch')
            a.fact(z3.And(n >= 0, n <= 2 ** 40))
            a.ghost['old'], a.ghost['n'] = size, n
            c = Seq([Sub(T.log, size, n, lw)])
            return [(a, P.constslice(c), True), (b, P.zero(b, P.tid['[]' + LWRP]), False)]
        if not ch.t.eq(done.t) and not any(ch.t.eq(x) for x in st.ghost.get('timers', ())):
            P.oblige(st, 'answer.waits-for-no-other-party', False, 'the sequencer receives from a channel other than its input, its context and timers')
        return [(st, P.fresh(st, ch.elem, 'recv'), False)]
    P.recv_hook = recv

    def after(P, st, args, i):
        ch = ChanV(st.fresh_u('timer'), P.U(i['results'][0])['elem'], 1)
        st.ghost['timers'] = st.ghost.get('timers', ()) + (ch.t,)
        return (ch,)
    P.models['time.After'] = after

    def send(P, st, ch, x, i):
        P.oblige(st, 'answer.after-everything-is-published', And(st.ghost.get('sth') is True and st.ghost.get('cp') is True and st.ghost.get('dd') is True,
                                                                 ack('sth') == NIL, ack('checkpoint') == NIL, ack('dedupe') == NIL))
        st.ghost['events'] = st.ghost.get('events', Seq()) + Seq([Lit([St(None, [Opaque(ch.t, None), x])])])
    P.send_hook = send

    def check(st, locs, when):
        P.oblige(st, 'invariant.%s.no-locals' % when, all(i['r'][0] == 'cell' for i, v in locs)) if locs else None
        if when == 'entry':
            return
        g = st.ghost
        old = g.get('old')
        if old is None:
            T.seen.add('idle')
            P.oblige(st, 'invariant.idle-changes-nothing', And(eqt(ld(st, 'treeSize'), size), eqt(g.get('events', Seq()).len, 0)))
            check_edges(P, T, st, P.mapv(st, ld(st, 'edgeTiles')), size, 'tree.edges')
            return
        n = g['n']
        new = simp(add(old, n))
        T.seen.add('published')
        P.oblige(st, 'stored.continues-only-after-publishing', And(g.get('sth') is True and g.get('cp') is True and g.get('dd') is True,
                                                                   ack('sth') == NIL, ack('checkpoint') == NIL))
        P.oblige(st, 'dedupe.continues-only-after-recording', And(g.get('dd') is True, ack('dedupe') == NIL))
        P.oblige(st, 'tree.size', eqt(ld(st, 'treeSize'), new))
        check_edges(P, T, st, P.mapv(st, ld(st, 'edgeTiles')), new, 'tree.edges')
        ev = g.get('events', Seq())
        P.oblige(st, 'answer.one-per-entry', eqt(ev.len, n))
        s = st.clone()
        s.fact(tz(And(ge(T.m, 0), lt(T.m, n))))

        def one(s):
            e = seq_get(s, ev, T.m)
            w = P.mk(s, lw, 'el', [T.log, tz(add(old, T.m))])
            P.oblige(s, 'answer.to-its-submitter', term(e.f[0]) == term(w.f[fidx(P, LWRP, 'returnPath')]))
            P.oblige(s, 'answer.with-the-sequenced-entry', val_eq(s, e.f[1], w.f[fidx(P, LWRP, 'entry')]))
        if s.feasible():
            T.seen.add('answered')
            P.all_paths(s, one)

    def make(st, locs):
        for k in ('old', 'n', 'new', 'gnil', 'sth', 'cp', 'dd', 'sthbytes', 'cpbytes'):
            st.ghost[k] = None
        st.ghost['events'] = Seq()
        st.ghost['in'] = True
        st.store(fp('treeSize'), size)
        mr = ld(st, 'edgeTiles')
        mv = MapV(st.fresh_u('edges'), (), P.tid['int'], P.tid[TWB], (edge_law(P, T, size),))
        o = st.alloc(mv, mr.ty if hasattr(mr, 'ty') else None)
        st.store(fp('edgeTiles'), MapRef(o, mr.ty))
        return {i['r']: v for i, v in locs}, {d.obj, o}

    def hook(P, f, L, it):
        if it.st.ghost.get('in') is True:
            return None
        return loops.cut_loop(P, f, L, it, make, check)
    P.loop_hook[fn] = hook
    P.maxunroll = 0     # the invariants are stated for the loops over the batch
    P.cat_extends = True
    outs = nopanic(P, run(P, st, fn, [d, ctx]), 'stored.no-panic')

    def post(st, k, r):
        err = r[0] if isinstance(r, tuple) else r
        P.oblige(st, 'stored.stops-with-an-error', Not(isnil(st, err)))
        return True
    forall(P, outs, post)
    reach(P, outs, 'reach.stops', post)
    for w in ('published', 'answered', 'sth', 'StoredHashesForRecordHash', 'ReadTileData', 'TreeHash'):
        P.obls[P.prefix + 'reach.' + w] = {'name': P.prefix + 'reach.' + w, 'paths': 1, 'time': 0.0, 'reach': True,
                                           'failed': [] if w in T.seen else [{'msg': 'not reached', 'status': 'unreachable', 'trace': [], 'cond': '', 'model': ''}]}


UNITS = [('stageTwo', stagetwo)]


# ------------------------------------------------------------------ the requests of tlog stay within the contract of the reader
def requests(P):
    """hash number m of level i is stored with leaf (m+1)<<i - 1 and lies in the tile TileForIndex names.  Computing the hashes
    of leaf n and the root of size n needs the maximal complete subtrees of [0,n): number (n>>i)-1 of each level i with bit i of
    n set; a tile needs the hashes it holds.  All of them are new or in the old edge (bit-vector arithmetic, every level)."""
    P.prefix = 'lemma.requests/'
    import time
    bv = lambda n: z3.BitVec(n, 64)
    old, n, N, e, W = [bv(x) for x in ('old', 'n', 'N', 'e', 'W')]

    def lemma(name, hyps, goal):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(*hyps)
        vac = s.check() != z3.sat
        s.add(z3.Not(goal))
        r = s.check()
        P.obls[P.prefix + name] = {'name': P.prefix + name, 'paths': 1, 'time': time.time() - t, 'failed': [] if r == z3.unsat and not vac else [
            {'msg': 'vacuous' if vac else 'not proved', 'status': str(r), 'trace': [], 'cond': str(goal)[:500], 'model': ''}]}

    def edge(size, L, tN, tW):
        c = z3.LShR(size, 8 * L)
        return z3.And(c & 255 != 0, tN == z3.LShR(c, 8), z3.ULE(tW, c & 255))

    def node(i, m):
        L, r = i // 8, i % 8
        tN = z3.LShR(m << r, 8)
        return L, tN, ((m - z3.LShR(tN << 8, r)) + 1) << r, ((m + 1) << i) - 1
    cap = z3.BitVecVal(1 << 62, 64)
    base = [z3.ULE(old, n), z3.ULT(n, cap)]
    for i in range(62):
        L, tN, tW, leaf = node(i, z3.LShR(n, i) - 1)
        new = z3.And(z3.UGE(leaf, old), z3.ULT(leaf, n))
        bit = z3.Extract(i, i, n) == 1
        lemma('subtree-of-level-%d' % i, base + [bit], z3.And(z3.ULE(tW, 256), z3.UGE(tW, 1), z3.ULT(leaf, n), z3.Or(new, z3.And(
            edge(old, L, tN, tW), edge(n, L, tN, tW)))))
    for L in range(8):
        if 8 * L >= 62:
            continue
        i = 8 * L
        c0, c1 = z3.LShR(old, i), z3.LShR(n, i)
        L_, tN, tW, leaf = node(i, e)
        new = z3.And(z3.UGE(leaf, old), z3.ULT(leaf, n))
        lemma('tile-of-level-%d' % L, base + [z3.ULT(N, cap), z3.ULE(W, 256), z3.UGE(W, 1), z3.ULE((N << 8) + W, c1), z3.ULT(N, 1 << 54),
                                              z3.UGT((N + 1) << 8, c0), z3.UGE(e, N << 8), z3.ULT(e, (N << 8) + W)],
              z3.And(tN == N, z3.ULE(tW, W), z3.Or(new, edge(old, L, tN, tW))))


UNITS += [('requests', requests)]
