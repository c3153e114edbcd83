"""Shared contracts of the monitor (read side): published objects, tile geometry, entries, queries.

The published log of size T: tile (L,N) is stored in full when complete and with width W when 256N+W units of level L exist;
data tile (-1,N,W) is the concatenation LE(256N) .. LE(256N+W-1) of the encoded leaves (C05), leaf i decoding to the entry
*leafp(i) with LeafIndex i."""
from iomodels import *
from cryptomodels import *
from storage import *
from leaf import *
from strmodels import install_strings
import exec as ex

TL = 'golang.org/x/mod/sumdb/tlog.'
STO = CM + 'Storage'
CTP = 'github.com/google/certificate-transparency-go.'


class Mon:
    """the environment of a monitor unit"""
    def __init__(self, P, benign=False, published=True, budget=True, size=None):
        self.P, self.benign, self.published, self.budget = P, benign, published, budget
        self.size = size        # published tree size (z3 Int) or None
        self.partial_ok = True


def leafp(i):
    return uf('leafp', [tz(i)], core.U)


def entry_ptr(P, st, i):
    t = leafp(i)
    o = SymObj(t, P.tid[ENTRY])
    st.fact(t != NIL)
    e = P.symload(st, o, ())
    st.fact(e.f[fidx(P, ENTRY, 'LeafIndex')] == tz(i))
    return Ptr(o)


def le_family():
    f = LE_FAM.get('f')
    if f is None:
        k = z3.Int('kLE')
        a = uf('le', [k], core.U)
        f = LE_FAM['f'] = Family(k, [(True, (Sub(a, 0, uf('len', [a], INT)),))], [uf('len', [a], INT) >= 1], name='LE', nonempty=True)
    return f


LE_FAM = {}


def le_cat(st, lo, hi):
    c = Cat(le_family(), lo, hi)
    if isz(c.len):
        st.fact(z3.And(c.len >= 0, (c.len > 0) == tz(lt(lo, hi)), c.len < 2 ** 40))
    return Seq([c])


def entries_family(P):
    f = LE_FAM.get('e')
    if f is None:
        st = State(P)
        k = z3.Int('kPE')
        o = SymObj(leafp(k), P.tid[ENTRY])
        e = P.symload(st, o, ())
        f = LE_FAM['e'] = Family(k, [(True, (Lit([Ptr(o)]),))],
                                 [leafp(k) != NIL, e.f[fidx(P, ENTRY, 'LeafIndex')] == k], elen=1, name='PE')
    return f


# ------------------------------------------------------------------ storage
def pow256(L):
    if not isz(L):
        return 256 ** L if L >= 0 else 1
    return uf('pow256', [L], INT)


def pow_facts(st, L):
    if isz(L):
        p = pow256(L)
        st.fact(z3.And(L >= 0, p >= 1, (L == 0) == (p == 1), z3.Implies(L >= 1, p >= 256), z3.Implies(L == 1, p == 256)))


def covered(st, L, N, W):
    """number of leaves below the tile's right edge"""
    L = 0 if (not isz(L) and L == -1) else L
    if not isz(L):
        return mul(add(mul(256, N), W), 256 ** L)
    pow_facts(st, L)
    c = uf('covered', [L, tz(N), tz(W)], INT)
    st.fact(z3.Implies(L == 0, c == tz(add(mul(256, N), W))))
    st.fact(z3.Implies(L >= 1, c >= 256 * tz(add(mul(256, N), W))))
    return c


def path_tile(key):
    """(L, N, W) of a tile name"""
    if len(key.p) == 1 and isinstance(key.p[0], Sub) and key.p[0].atom.decl().name() == 'tilepath':
        return [simp(x) for x in key.p[0].atom.children()]
    return None


def guaranteed(E, st, key):
    """the published tree of size T guarantees that the object exists"""
    t = path_tile(key)
    if t is None:
        return True
    L, N, W = t
    c = covered(st, L, N, W)
    if not isz(L) and L <= 0:
        return And(ge(N, 0), ge(W, 1), Or(And(eqt(W, 256), le(c, E.size)), And(lt(W, 256), eqt(c, E.size))))
    # a level 0 tile is kept in full and at the final width; higher levels at every width (see C01)
    return And(ge(N, 0), ge(W, 1), le(W, 256), le(c, E.size), Or(Not(eqt(L, 0)), eqt(W, 256), eqt(c, E.size)))


def content_of(E, st, key):
    t = path_tile(key)
    if E.published and t is not None and not isz(t[0]) and t[0] == -1:
        return le_cat(st, mul(256, t[1]), add(mul(256, t[1]), t[2]))
    c = stored(st, key)
    if E.published and t is not None:
        st.fact(tz(Or(lt(t[0], 0), eqt(c.len, mul(32, t[2])))))
    return c


def mon_get(E):
    def f(P, st, args, i):
        key = args[2]
        t = path_tile(key)
        miss = st.ghost.get('miss', NIL)
        if t is not None:
            L, N, W = t
            P.oblige(st, 'Get.requires.partial-tile-only-after-the-full-one-is-missing',
                     Or(eqt(W, 256), miss == reify(tilepath(st, L, N, 256))))
            if E.size is not None and E.partial_ok and not isz(L) and L == -1:
                P.oblige(st, 'Get.requires.published-width', Or(eqt(W, 256), *E.widths(st, L, N, W)))
        c = content_of(E, st, key)
        outs = []
        z = lambda s: P.zero(s, i['results'][0])
        always = E.benign and guaranteed(E, st, key)
        for s, g in (P.split(st, tz(always)) if E.benign else [(st, False)]):
            s2, s3 = s.clone(), s.clone()
            s.ghost['miss'] = NIL
            outs.append((s, 'ret', (bytesv(P, s, c), False, NILIF)))
            if g:
                continue
            s2.ghost['miss'] = reify(key)
            outs.append((s2, 'ret', (z(s2), True, newerr(s2, 'notfound'))))
            if not E.benign:
                s3.ghost['miss'] = NIL
                outs.append((s3, 'ret', (z(s3), False, newerr(s3, 'geterr'))))
        return outs
    return f


GT = '(*%sFetch).getTile' % CM


def get_tile(E):
    def f(P, st, args, i):
        """contract of getTile (unit gettile): the bytes of the full tile, or when that is missing of the tile with the width asked
        for; fails only when neither can be read"""
        P.contracted = getattr(P, 'contracted', set()) | {GT}
        t = args[2]
        H, L, N, W = [tf(P, t, x) for x in 'HLNW']
        P.oblige(st, 'getTile.requires', And(eqt(H, 8), ge(N, 0), ge(W, 1), le(W, 256)))
        if E.published and not isz(L) and L == -1:
            P.oblige(st, 'getTile.requires.published-width', Or(eqt(W, 256), *E.widths(st, L, N, W)))
        s2 = st.clone()
        v = st.fresh_int('tw')
        st.fact(tz(Or(eqt(v, 256), eqt(v, W))))
        c = content_of(E, st, tilepath(st, L, N, v))
        outs = [(st, 'ret', (bytesv(P, st, c), NILIF))]
        if E.benign:
            st.fact(tz(Implies(guaranteed(E, st, tilepath(st, L, N, 256)), eqt(v, 256))))
            s2.fact(tz(Not(Or(guaranteed(E, s2, tilepath(s2, L, N, 256)), guaranteed(E, s2, tilepath(s2, L, N, W))))))
        if s2.feasible():
            outs.append((s2, 'ret', (P.zero(s2, i['results'][0]), newerr(s2, 'gettile'))))
        return outs
    return f


def gettile_unit(P):
    """getTile: reads the full tile first and the partial one only when that is missing; returns what it read or an error"""
    gettile(P, True)


def gettile_any(P):
    """getTile: returns the full tile or the one of the width asked for, and an error only when neither can be had"""
    gettile(P, False)


def gettile(P, strict):
    P.prefix = 'ctmonitor.Fetch.getTile/'
    install_io(P)
    install_path(P)
    P.imodels[(STO, 'Get')] = st_get(True)
    for l in (-1, None):
        st = State(P)
        L = l if l is not None else st.fresh_int('L', 0, 63)
        N, W = st.fresh_int('N', 0, 2 ** 55), st.fresh_int('W', 1, 256)
        fv = fetch(P, st)
        f = Ptr(st.alloc(fv, fv.ty))
        ctx = SymIface(nn(st, 'ctx'))
        outs = nopanic(P, run(P, st, GT, [f, ctx, mktile(P, L, N, W)]), 'no-panic')

        def post(st, k, r):
            ok = st.decide(isnil(st, r[1]))
            g = [c for c in calls(st) if c[0] == 'Get']
            full, part = tilepath(st, L, N, 256), tilepath(st, L, N, W)
            if not strict:
                good = [c for c in g if c[2] == 'ok']
                P.oblige(st, 'ensures.reads-only-this-tile', And(*[Or(seq_eq(st, c[1]['key'], full), seq_eq(st, c[1]['key'], part)) for c in g]))
                P.oblige(st, 'ensures.succeeds-iff-a-read-does', ok == bool(good))
                if ok and good:
                    P.oblige(st, 'ensures.content', Or(*[seq_eq(st, st.content(r[0]), c[1]['content']) for c in good]))
                if not ok:
                    P.oblige(st, 'ensures.tries-the-full-tile', Or(*[seq_eq(st, c[1]['key'], full) for c in g]))
                    if any(c[1].get('notfound') is True for c in g):
                        P.oblige(st, 'ensures.tries-the-partial-tile', Or(*[seq_eq(st, c[1]['key'], part) for c in g]))
                return ok
            P.oblige(st, 'ensures.reads-the-full-tile-first', And(len(g) >= 1, seq_eq(st, g[0][1]['key'], full) if g else False))
            P.oblige(st, 'ensures.at-most-one-fallback', len(g) <= 2)
            P.oblige(st, 'ensures.same-context', all(term(c[1]['ctx']).eq(term(ctx)) for c in g))
            if not g or len(g) > 2:
                return False
            miss = g[0][2] != 'ok' and g[0][1].get('notfound') is True
            if len(g) == 2:
                P.oblige(st, 'ensures.partial-tile-only-after-the-full-one-is-missing', And(miss, Not(eqt(W, 256)), seq_eq(st, g[1][1]['key'], part)))
            else:
                P.oblige(st, 'ensures.falls-back-to-the-partial-tile', Or(not miss, eqt(W, 256)))
            last = g[-1]
            P.oblige(st, 'ensures.succeeds-iff-the-read-does', ok == (last[2] == 'ok'))
            if ok and last[2] == 'ok':
                P.oblige(st, 'ensures.content', seq_eq(st, st.content(r[0]), last[1]['content']))
            return ok
        forall(P, outs, post)
        reach(P, outs, 'reach', post)


# ------------------------------------------------------------------ tlog geometry
def tile_for_index(P, st, args, i):
    """tlog.TileForIndex(8, index): the tile holding the hash and the width up to it"""
    P.oblige(st, 'TileForIndex.requires.height-8', eqt(args[0], 8))
    x = args[1]
    P.oblige(st, 'TileForIndex.requires.index', ge(x, 0))
    if isz(x) and x.decl().name() == 'storedhashindex' and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() == 0:
        n = simp(x.arg(1))
        N = idiv(n, 256)
        return (mktile(P, 0, N, add(sub(n, mul(256, N)), 1)),)
    L, N, W = [uf('tfi.' + f, [tz(x)], INT) for f in 'LNW']
    st.fact(z3.And(L >= 0, L < 8, N >= 0, N < 2 ** 55, W >= 1, W <= 256))
    return (mktile(P, L, N, W),)


def mktile(P, L, N, W):
    d = {'H': 8, 'L': L, 'N': N, 'W': W}
    t = P.tid[TILE]
    return St(t, [d[f['n']] for f in P.U(t)['fields']])


def stored_hash_index(P, st, args, i):
    P.oblige(st, 'StoredHashIndex.requires', And(ge(args[0], 0), ge(args[1], 0)))
    v = uf('storedhashindex', [tz(args[0]), tz(args[1])], INT)
    st.fact(v >= 0)
    return (v,)


def hashintile(st, data, idx):
    t = uf('hashintile', [core.reifyst(st, data), tz(idx)], core.U)
    st.fact(uf('len', [t], INT) == 32)
    return Seq([Sub(t, 0, 32)])


def hash_from_tile(P, st, args, i):
    """tlog.HashFromTile: the hash of that index out of the bytes of its tile, or an error when tile, width or data do not fit"""
    t, data, idx = args
    P.oblige(st, 'HashFromTile.requires.height-8', eqt(tf(P, t, 'H'), 8))
    L, N, W = [uf('tfi.' + f, [tz(idx)], INT) for f in 'LNW']
    c = st.content(data)
    ok = And(eqt(tf(P, t, 'L'), L), eqt(tf(P, t, 'N'), N), ge(tf(P, t, 'W'), W), ge(c.len, mul(32, tf(P, t, 'W'))))
    outs = []
    for s, g in P.split(st, tz(ok)):
        if g:
            outs.append((s, 'ret', (hashintile(s, c, idx), NILIF)))
        else:
            outs.append((s, 'ret', (P.zero(s, i['results'][0]), newerr(s, 'hft'))))
    return outs


# ------------------------------------------------------------------ entries
def read_tile_leaf(E):
    def f(P, st, args, i):
        """contract of sunlight.ReadTileLeaf (C05): the next encoded leaf, or on other bytes an error or a strictly shorter rest"""
        P.contracted = getattr(P, 'contracted', set()) | {SL + 'ReadTileLeaf'}
        s = st.content(args[0])
        if s.p and isinstance(s.p[0], Cat) and s.p[0].fam is le_family():
            c = s.p[0]
            P.oblige(st, 'ReadTileLeaf.requires.nonempty', lt(c.lo, c.hi))
            rest = le_cat(st, add(c.lo, 1), c.hi) + Seq(s.p[1:])
            return (entry_ptr(P, st, c.lo), bytesv(P, st, rest), NILIF)
        s2 = st.clone()
        n = st.fresh_int('rest', 0)
        st.fact(tz(lt(n, s.len)))
        rest = core.seq_slice(st, s, sub(s.len, n), s.len)
        p = Ptr(SymObj(nn(st, 'entry'), P.tid[ENTRY]))
        return [(st, 'ret', (p, bytesv(P, st, rest), NILIF)), (s2, 'ret', (None, None if False else P.zero(s2, i['results'][1]), newerr(s2, 'rtl')))]
    return f


def mtl(st, e):
    t = uf('mtl', [term(e)], core.U)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 1, l < 2 ** 26))
    return Seq([Sub(t, 0, l)])


def merkle_tree_leaf(P, st, args, i):
    """contract of (*LogEntry).MerkleTreeLeaf (C06): the MerkleTreeLeaf structure of the entry"""
    P.contracted = getattr(P, 'contracted', set()) | {'(*%sLogEntry).MerkleTreeLeaf' % SL}
    return (bytesv(P, st, mtl(st, st.load(args[0]))),)


def tls_bytes(P, st, v):
    t = uf('tls', [ext.deepterm(P, st, v)], core.U)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 32))
    return Seq([Sub(t, 0, l)])


def tls_marshal(E):
    def f(P, st, args, i):
        """a function of the value; fails on values beyond the limits of the structure"""
        s2 = st.clone()
        r = [(st, 'ret', (bytesv(P, st, tls_bytes(P, st, args[0])), NILIF))]
        if not E.benign:
            r.append((s2, 'ret', (P.zero(s2, i['results'][0]), newerr(s2, 'tls'))))
        return r
    return f


def asn1(P, st, c):
    """ct.ASN1Cert{Data: c}"""
    return St(P.tid[CTP + 'ASN1Cert'], [P.constslice(c)])


def issuer_key(st, fp):
    return lit('issuer/') + ext.hexstr(st, fp)


def extra_data(P, st, e, isp):
    """the extra_data of a published entry: its complete chain out of the issuer objects"""
    f = entry_fields(P, st, e)
    fps = f['fps']
    if len(fps.p) != 1 or not isinstance(fps.p[0], Sub):
        raise Unsupported('fingerprints')
    p = fps.p[0]
    k = z3.Int('kfp')
    s = st.clone()
    el = P.mk(s, p.ety, 'el', [p.atom, k])
    fam = Family(k, [(True, (Lit([asn1(P, s, stored(s, issuer_key(s, el)))]),))], [], elen=1)
    ch = P.constslice(Seq([Cat(fam, 0, p.len)]))
    if isp:
        t = P.tid[CTP + 'PrecertChainEntry']
        d = {'PreCertificate': asn1(P, st, f['pre']), 'CertificateChain': ch}
        v = Iface(CTP + 'PrecertChainEntry', St(t, [d[x['n']] for x in P.U(t)['fields']]))
    else:
        v = Iface(CTP + 'CertificateChain', St(P.tid[CTP + 'CertificateChain'], [ch]))
    return tls_bytes(P, st, v)


# ------------------------------------------------------------------ request parameters and responses
def query(st, k):
    t = z3.Const('query:' + k, core.U)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 20))
    return Seq([Sub(t, 0, l)])


def query_get(P, st, args, i):
    k = args[1].concrete()
    if k is None:
        raise Unsupported('query parameter name')
    return (query(st, k.decode()),)


def intparam(st, k):
    """(well formed, value) of an integer parameter"""
    s = query(st, k)
    t = core.reifyst(st, s)
    v = uf('undec', [t], INT)
    return And(gt(s.len, 0), uf('isdec', [t], BOOL)), v


def mon_json(E):
    def f(P, st, args, i):
        s2 = st.clone()
        t = uf('json', [z3.IntVal(len(calls(st)))] + list(st.ctx), core.U)
        l = uf('len', [t], INT)
        st.fact(z3.And(l >= 0, l < 2 ** 40))
        rec(st, 'json.Marshal', 'ok', v=args[0], text=t)
        r = [(st, 'ret', (bytesv(P, st, Seq([Sub(t, 0, l)])), NILIF))]
        if not E.benign:
            e = newerr(s2, 'json')
            rec(s2, 'json.Marshal', e, v=args[0])
            r.append((s2, 'ret', (P.zero(s2, i['results'][0]), e)))
        return r
    return f


def answered(P, st, resp):
    """the value whose JSON the response is"""
    c = st.content(resp)
    for x in calls(st):
        if x[0] == 'json.Marshal' and x[2] == 'ok' and len(c.p) == 1 and isinstance(c.p[0], Sub) and c.p[0].atom.eq(x[1]['text']):
            v = x[1]['v']
            return v.ty, (st.load(v.v) if isinstance(v.v, Ptr) else v.v)
    return None, None


def install_monitor(P, E):
    m = P.models
    install_io(P)
    install_crypto(P)
    install_strings(P)
    install_path(P)
    P.imodels[(STO, 'Get')] = mon_get(E)

    def avail(P, st, args, i):
        v = st.fresh_int('avail', -2 ** 31, 2 ** 31)
        if not E.budget:
            st.fact(v != 0)
        return (v,)
    P.imodels[(STO, 'AvailableReqs')] = avail
    m[TL + 'TileForIndex'] = tile_for_index
    m[GT] = get_tile(E)
    m[TL + 'StoredHashIndex'] = stored_hash_index
    m[TL + 'HashFromTile'] = hash_from_tile
    m[SL + 'ReadTileLeaf'] = read_tile_leaf(E)
    m['(*%sLogEntry).MerkleTreeLeaf' % SL] = merkle_tree_leaf
    m[CTP.replace('-go.', '-go/tls.') + 'Marshal'] = tls_marshal(E)
    m['(net/url.Values).Get'] = query_get
    m['encoding/json.Marshal'] = mon_json(E)
    P.nonnil.add('*' + ENTRY)
    E.widths = lambda st, L, N, W: [eqt(covered(st, L, N, W), E.size)]


def sth_size(P, st):
    """tree size of the stored tree head, as the endpoints read it"""
    c = stored(st, lit('ct/v1/get-sth'))
    t = core.reifyst(st, c)
    v = ext.mkjson(P, st, P.tid[CTP + 'SignedTreeHead'], 'unjson', [t])
    return sthfield(P, st, v, 'TreeSize')


def fetch(P, st):
    """an arbitrary Fetch over a storage"""
    f = P.fresh(st, P.tid[CM + 'Fetch'], 'fetch')
    fs = list(f.f)
    fs[fidx(P, CM + 'Fetch', 's')] = SymIface(nn(st, 'storage'), P.tid[STO])
    return St(f.ty, fs)


# ------------------------------------------------------------------ proofs
def reader_model(P, E, which):
    """assumed contracts of tlog.ProveRecord / ProveTree: the RFC 6962 proof of the requested sizes out of the hashes the
    reader returns; they ask the reader only for hashes of complete subtrees of the requested tree, never for its root.
    The reader's contract is an obligation here: it returns the hash stored for each index, read from its published tile."""
    def f(P, st, args, i):
        n, m, rd = args
        if which == 'record':
            P.oblige(st, 'ProveRecord.requires', And(ge(m, 0), lt(m, n)))
        else:
            P.oblige(st, 'ProveTree.requires', And(ge(m, 1), le(m, n)))
        s = st.clone()
        s.ghost['miss'] = NIL
        w = E.w
        s.fact(w >= 0)
        idx = E.idx
        s.fact(idx.len >= 1)
        el = seq_get(s, idx, w)
        # facts of an arbitrary requested index, position w of an arbitrary request
        idxs = P.constslice(idx)
        if not isz(n) or True:
            E.reqsize = tz(n)
        save = P.prefix
        P.prefix = save + 'hashreader/'
        save_r, E.in_reader = getattr(E, 'in_reader', False), True
        try:
            outs = P.call(s, rd.v if isinstance(rd, Iface) else rd, [idxs], {'results': [P.tid['[]' + TL + 'Hash'], P.tid['error']]}) \
                if not isinstance(rd, SymIface) else None
            if outs is None:
                raise Unsupported('hash reader %r' % (rd,))
            for s2, k, r in outs:
                if k == 'panic':
                    P.oblige(s2, 'no-panic', False, 'panic reachable: %s' % (r,))
                    continue
                P.all_paths(s2, lambda s3: reader_post(P, E, s3, r, idx, w))
        finally:
            P.prefix = save
            E.in_reader = save_r
        t = uf('proof:' + which, [tz(n), tz(m)], core.U)
        pt = i['results'][0]
        s2 = st.clone()
        pf = P.mk(st, pt, 'prf:' + which, [tz(n), tz(m)])
        rec(st, 'Prove', 'ok', which=which, n=n, m=m, proof=pf)
        r = [(st, 'ret', (pf, NILIF))]
        if not E.benign:
            r.append((s2, 'ret', (P.zero(s2, pt), newerr(s2, 'prove'))))
        return r
    return f


def reader_post(P, E, st, r, idx, w):
    ok = st.decide(isnil(st, r[1]))
    if E.benign:
        P.oblige(st, 'ensures.answers-from-the-published-tree', ok)
    if not ok:
        return
    hs = st.content(r[0])
    P.oblige(st, 'ensures.one-hash-per-index', eqt(hs.len, idx.len))
    st.fact(tz(lt(w, idx.len)))
    index = seq_get(st, idx, w)
    index_facts(P, E, st, index)
    for hy in st.ghost.get('hyps', ()):
        hy.at(st, w)
    L, N, W = [uf('tfi.' + x, [tz(index)], INT) for x in 'LNW']
    h = seq_get(st, hs, w)
    c = lambda wd: seq_eq(st, h, hashintile(st, stored(st, tilepath(st, L, N, wd)), index))
    n = E.reqsize
    fin = sub(n, mul(256, idiv(sub(n, 1), 256)))
    alt = [c(256), c(W), c(simp(fin))]
    if E.size is not None:
        T = E.size
        alt.append(c(simp(sub(T, mul(256, idiv(sub(T, 1), 256))))))
    P.oblige(st, 'ensures.hash-of-the-index-from-its-tile', Or(*alt))


def index_facts(P, E, st, index):
    """the tile of a hash of a proper complete subtree of the requested tree (size E.reqsize)"""
    L, N, W = [uf('tfi.' + x, [tz(index)], INT) for x in 'LNW']
    st.fact(z3.And(index >= 0, L >= 0, L < 8, N >= 0, N < 2 ** 55, W >= 1, W <= 256))
    n = E.reqsize
    st.fact(tz(le(covered(st, L, N, W), n)))
    st.fact(z3.Implies(z3.And(L >= 1, N == 0, W == 1), n > tz(pow256(L))))


def install_proofs(P, E, st):
    E.w = st.fresh_int('w')
    E.idx = st.fresh_seq('indexes', ety=P.tid['int64'])
    P.models[TL + 'ProveRecord'] = reader_model(P, E, 'record')
    P.models[TL + 'ProveTree'] = reader_model(P, E, 'tree')
    a = E.idx.p[0].atom

    def ju(P, st, args, i):
        outs = ext.json_unmarshal(P, st, args, i)
        return outs[:1] if E.benign else outs
    P.models['encoding/json.Unmarshal'] = ju
    t0 = P.models[TL + 'TileForIndex']

    def tfi(P, st, args, i):
        x = args[1]
        if getattr(E, 'in_reader', False) and isz(x) and not x.decl().name() == 'storedhashindex':
            index_facts(P, E, st, x)
        return t0(P, st, args, i)
    P.models[TL + 'TileForIndex'] = tfi


def proof_is(P, st, v, which, n, m):
    """the byte slices of a proof value are the hashes of the proof, in order"""
    pr = [x for x in calls(st) if x[0] == 'Prove' and x[2] == 'ok']
    return len(pr) == 1 and pr[0][1]['which'] == which and And(eqt(pr[0][1]['n'], n), eqt(pr[0][1]['m'], m))


def check_proof(P, st, v, which, n, m, w):
    """v ([][]byte) lists the hashes of the one proof computed, for the given sizes; w arbitrary position"""
    pr = [x for x in calls(st) if x[0] == 'Prove' and x[2] == 'ok']
    P.oblige(st, 'ensures.proof-of-the-requested-sizes', len(pr) == 1 and pr[0][1]['which'] == which and
             And(eqt(pr[0][1]['n'], n), eqt(pr[0][1]['m'], m)))
    if len(pr) != 1:
        return
    hs, c = st.content(pr[0][1]['proof']), st.content(v)
    P.oblige(st, 'ensures.proof-length', eqt(hs.len, c.len))
    st.fact(tz(And(ge(w, 0), lt(w, hs.len))))
    if st.feasible():
        P.oblige(st, 'ensures.proof-hashes', seq_eq(st, st.content(seq_get(st, c, w)), seq_get(st, hs, w)))


# ------------------------------------------------------------------ hash index
def kanon(P, st, args, i):
    """contract of sunlight.KAnonHashPath (C11): the name of the index object of a 16 byte hash"""
    P.contracted = getattr(P, 'contracted', set()) | {SL + 'KAnonHashPath'}
    h = st.content(args[0])
    P.oblige(st, 'KAnonHashPath.requires', And(eqt(h.len, 16), ge(args[1], 0), le(args[1], 32)))
    return (kanonpath(st, h, args[1]),)


def kanonpath(st, h, mask):
    t = uf('kanon', [core.reifyst(st, h), tz(mask)], core.U)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 0, l <= 47))
    return Seq([Sub(t, 0, l)])


REC = 21


def hrec(F, j):
    """hash of record j of an index object"""
    p = F.p[0]
    return Seq([Sub(p.atom, add(p.off, mul(REC, j)), 16)])


def hval(st, F, j):
    p = F.p[0]
    return core.seq_int(st, Seq([Sub(p.atom, add(p.off, add(mul(REC, j), 16)), 5)]), 'le')


def hcount(F):
    return idiv(F.len, REC)


def counters(st):
    """loop counters occurring in the path condition"""
    out, seen = {}, set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().name().startswith('k!'):
            out[t.decl().name()] = t
        for c in t.children():
            go(c)
    for f in st.pc:
        go(f)
    return list(out.values())


def index_unit(fname, obj, mask_of, mk, lenchk=16):
    """the lookup of a hash in its index object: an answer is the index of a matching record; a recorded hash is found,
    with the index of its first record; errors only for an unrecorded hash or when the object cannot be read"""
    def check(P):
        P.prefix = fname + '/'
        st = State(P)
        h = st.fresh_seq('hash')
        m = st.fresh_int('m')
        j = st.fresh_int('j')
        recv, ctx, mask, extra = mk(P, st)
        key = lambda s: lit(obj) + kanonpath(s, h, mask)
        F = stored(st, key(st))
        st.fact(tz(And(ge(mask, 0), le(mask, 32))))
        st.fact(tz(And(ge(m, 0), lt(m, hcount(F)))))
        args = [recv, ctx, P.newslice(st, h)] + extra
        outs = nopanic(P, run(P, st, fname, args), 'no-panic')

        def post(st, k, r):
            v, err = r
            ok = st.decide(isnil(st, err))
            ks = counters(st)
            for hy in st.ghost.get('hyps', ()):
                hy.at(st, m)
            # stored objects are sorted (the insertion lemma: stays-sorted), used at the places the code looked at
            at = lambda x: ext.ordkey(st, hrec(F, x))
            for c in ks:
                for x in (c, sub(c, 1)):
                    st.fact(tz(And(Implies(And(ge(x, 0), le(x, m)), le(at(x), at(m))), Implies(And(le(m, x), lt(x, hcount(F))), le(at(m), at(x))))))
            if ok:
                P.oblige(st, 'ensures.hash-length', eqt(h.len, lenchk))
                P.oblige(st, 'ensures.answer-is-recorded', Or(*[And(ge(x, 0), lt(x, hcount(F)), seq_eq(st, hrec(F, x), h),
                                                                    eqt(v, hval(st, F, x))) for x in ks]))
                # m: any matching record with no matching record before it
                st.fact(tz(seq_eq(st, hrec(F, m), h)))
                for x in ks:
                    st.fact(tz(Implies(And(ge(x, 0), lt(x, m)), Not(seq_eq(st, hrec(F, x), h)))))
                if st.feasible():
                    P.oblige(st, 'ensures.first-record', eqt(v, hval(st, F, m)))
                return True
            geterr = any(c[0] == 'Get' and c[2] != 'ok' for c in calls(st))
            if not geterr:
                h16 = Seq([Sub(h.p[0].atom, 0, 16)])
                st.fact(tz(And(eqt(h.len, 16), seq_eq(st, hrec(F, m), h), eqt(at(m), ext.ordkey(st, h16)))))
                P.oblige(st, 'ensures.recorded-hash-is-found', not st.feasible())
            return False
        forall(P, outs, post)
        reach(P, outs, 'reach.found', post)
    return check


def index_for_hash(E):
    def f(P, st, args, i):
        """contract of (*Fetch).getIndexForHash (proved in C07): the recorded index of the hash"""
        P.contracted = getattr(P, 'contracted', set()) | {'(*%sFetch).getIndexForHash' % CM}
        h = st.content(args[2])
        s2 = st.clone()
        outs = []
        for s, g in P.split(st, tz(eqt(h.len, 16))):
            if g:
                v = recorded(s, h)
                rec(s, 'index', 'ok', hash=h)
                outs.append((s.clone(), 'ret', (v, NILIF)))
            e = newerr(s, 'gih')
            rec(s, 'index', e, hash=h)
            outs.append((s, 'ret', (0, e)))
        return outs
    return f


def recorded(st, h):
    v = uf('recorded', [core.reifyst(st, h)], INT)
    st.fact(z3.And(v >= 0, v < 2 ** 40))
    return v
