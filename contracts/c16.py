"""C16: a log starts only on its own key and authenticated published state (LoadLog, sunlight.TileReader)."""
from iomodels import *
from cryptomodels import *
from storage import *
import exec as ex_

GC = CS + 'GlobalConfig'
CONS = 'github.com/hashicorp/consul/api.'
XU = 'github.com/google/certificate-transparency-go/x509util.'
CERT = 'github.com/google/certificate-transparency-go/x509.Certificate'
TL = 'golang.org/x/mod/sumdb/tlog.'


def symobj(P, st, tname, name):
    return Ptr(SymObj(nn(st, name), P.tid[tname]))


def okrec(P, st, i, op, kw, ok):
    s2 = st.clone()
    rec(st, op, 'ok', **kw)
    e = newerr(s2)
    rec(s2, op, e, **kw)
    return [(st, 'ret', tuple(ok(st)) + (NILIF,)), (s2, 'ret', tuple(P.zero(s2, t) for t in i['results'][:-1]) + (e,))]


def consul_models(P):
    m = P.models
    m[CONS + 'DefaultConfig'] = lambda P, st, args, i: (Ptr(st.alloc(P.fresh(st, P.tid[CONS + 'Config'], 'cfg'), P.tid[CONS + 'Config'])),)
    client = Ptr(SymObj(z3.Const('nn:consulclient', core.U), P.tid[CONS + 'Client']))
    m[CONS + 'NewClient'] = lambda P, st, args, i: okrec(P, st, i, 'consul.NewClient', dict(
        addr=st.load(Ptr(args[0].obj, (fidx(P, CONS + 'Config', 'Address'),)))), lambda s: (client,))
    m['(*%sClient).KV' % CONS] = lambda P, st, args, i: (symobj(P, st, CONS + 'KV', 'kv'),)
    def newlock(P, st, i, client, key, tries, session):
        def ok(s):
            l = symobj(P, s, CONS + 'Lock', 'lock')
            s.ghost['lockopts'] = s.ghost.get('lockopts', ()) + ((l, tries, session),)
            return (l,)
        return okrec(P, st, i, 'LockKey', dict(client=client, key=key), ok)
    m['(*%sClient).LockKey' % CONS] = lambda P, st, args, i: newlock(P, st, i, args[0], args[1], False, Seq())

    def lockopts(P, st, args, i):
        o = lambda f: st.load(Ptr(args[1].obj, args[1].path + (fidx(P, CONS + 'LockOptions', f),)))
        return newlock(P, st, i, args[0], o('Key'), o('LockTryOnce'), o('Session'))
    m['(*%sClient).LockOpts' % CONS] = lockopts

    def lock(P, st, args, i):
        """contract of consul's Lock: held, with a channel that closes when it is lost; an error; or, when the attempt can be
        cut short (a stop channel, LockTryOnce), neither"""
        opts = [x for x in st.ghost.get('lockopts', ()) if term(x[0]).eq(term(args[0]))]
        tries, session = opts[-1][1:] if opts else (True, None)
        res = []
        giveup = Or(Not(isnil(st, args[1])), tries)
        for s, g in P.split(st.clone(), giveup):
            if g:
                rec(s, 'Lock', 'not-held', lock=args[0])
                res.append((s, 'ret', (None, NILIF)))
        ch = P.fresh(st, i['results'][0], 'estop')
        return res + okrec(P, st, i, 'Lock', dict(lock=args[0], ch=ch, own=session is not None and eqt(session.len, 0)), lambda s: (ch,))
    m['(*%sLock).Lock' % CONS] = lock

    def unlock(P, st, args, i):
        rec(st, 'Unlock', 'ok', lock=args[0])
        return (P.fresh(st, i['results'][0], 'unlockerr'),)
    m['(*%sLock).Unlock' % CONS] = unlock

    def kvget(P, st, args, i):
        s2, s3 = st.clone(), st.clone()
        p = symobj(P, st, CONS + 'KVPair', 'pair')
        rec(st, 'consul.Get', 'ok', key=args[1], pair=p)
        rec(s2, 'consul.Get', 'ok', key=args[1], pair=None)
        e = newerr(s3)
        rec(s3, 'consul.Get', e, key=args[1])
        return [(st, 'ret', (p, None, NILIF)), (s2, 'ret', (None, None, NILIF)), (s3, 'ret', (None, None, e))]
    m['(*%sKV).Get' % CONS] = kvget
    for n in ('os/signal.Notify', 'log.Println', 'log.Printf'):
        m[n] = lambda P, st, args, i: ()


# ------------------------------------------------------------------ tlog
# the tiles tlog asks for when it authenticates the last leaf of a tree: exactly one per level of a set S of levels
# that contains level 0, each the rightmost published tile of its level
class TilePlan:
    def __init__(self, ts):
        self.ts = ts

    def m(self, st):
        v = uf('ntiles', [self.ts], INT)
        st.fact(z3.And(v >= 1, v <= 64))
        return v

    def N(self, L):
        return uf('rmN', [self.ts, tz(L)], INT)

    def W(self, L):
        return uf('rmW', [self.ts, tz(L)], INT)

    def idx(self, L):
        return uf('tileidx', [self.ts, tz(L)], INT)

    def level(self, k):
        return uf('tilelevel', [self.ts, tz(k)], INT)

    def inS(self, L):
        i = self.idx(L)
        return And(i >= 0, i < uf('ntiles', [self.ts], INT), self.level(i) == tz(L))

    def tile(self, P, st, k, t):
        L = self.level(k)
        st.fact(z3.And(L >= 0, L < 8, self.N(L) >= 0, self.N(L) < 2 ** 55, self.W(L) >= 1, self.W(L) <= 256))
        st.fact(z3.Implies(z3.And(tz(k) >= 0, tz(k) < self.m(st)), self.idx(L) == tz(k)))
        return mktile(P, L, self.N(L), self.W(L))


def mktile(P, L, N, W):
    d = {'H': 8, 'L': L, 'N': N, 'W': W}
    t = P.tid[TILE]
    return St(t, [d[f['n']] for f in P.U(t)['fields']])


def tlog_models(P, plan, focus):
    m = P.models

    def mktilehook(st, t, name, args):
        if name == 'el' and args[0].eq(plan.ts):
            return plan.tile(P, st, args[1], t)
        return St(t, [P.mk(st, f['t'], name + '.' + f['n'], args) for f in P.U(t)['fields']])
    P.mkhooks[TILE] = mktilehook

    def thr(P, st, args, i):
        h = nn(st, 'hashreader')
        g = lambda f: args[0].f[fidx(P, TL + 'Tree', f)]
        st.ghost['thr'] = st.ghost.get('thr', ()) + ((h, g('N'), g('Hash'), args[1]),)
        return (SymIface(h),)
    m[TL + 'TileHashReader'] = thr

    def shi(P, st, args, i):
        v = uf('storedhashindex', [tz(args[0]), tz(args[1])], INT)
        st.fact(v >= 0)
        return (v,)
    m[TL + 'StoredHashIndex'] = shi
    iface = TL + 'TileReader'
    rt = P.tid[iface]

    def readhashes(P, st, args, i):
        """assumed contract of tlog.TileHashReader(tree, tr).ReadHashes: asks tr for the tiles that authenticate the hashes
        against the tree head, checks them, and only when they are consistent saves them and returns"""
        src = [x for x in st.ghost.get('thr', ()) if x[0].eq(term(args[0]))]
        if not src:
            raise Unsupported('ReadHashes of an unknown reader')
        h, n, root, trv = src[0]
        idx = st.content(args[1])
        want = uf('storedhashindex', [z3.IntVal(0), tz(sub(n, 1))], INT)
        P.oblige(st, 'ReadHashes.requires.nonempty-tree', lt(0, n))
        P.oblige(st, 'LoadLog.ensures.last-leaf-authenticated',
                 len(idx.p) == 1 and isinstance(idx.p[0], Lit) and len(idx.p[0].v) == 1 and eqt(idx.p[0].v[0], want))
        for s, k, hgt in P.call(st.clone(), ('invoke', 'Height', trv, rt), [], {'results': [P.tid['int']]}):
            P.oblige(s, 'TileReader.Height.ensures', k == 'ret' and eqt(hgt[0], 8))
        mm = plan.m(st)
        tiles = SliceV(Ptr(SymObj(plan.ts, -1 - P.tid[TILE])), 0, mm, mm, False)
        outs = []
        bt = P.tid['[]byte']
        for s, k, r in P.call(st, ('invoke', 'ReadTiles', trv, rt), [tiles], {'results': [P.tid['[][]byte'], P.tid['error']]}):
            if k != 'ret':
                outs.append((s, k, r))
                continue
            data, err = r
            for st2, good in P.split(s, isnil(s, err)):
                if not good:
                    e = newerr(st2)
                    rec(st2, 'ReadHashes', e)
                    outs.append((st2, 'ret', (P.zero(st2, i['results'][0]), e)))
                    continue
                P.oblige(st2, 'TileReader.ReadTiles.ensures.count', eqt(data.len, mm))
                w = focus['w']
                st2.fact(z3.And(w >= 0, w < mm))

                def chk(s4):
                    t = plan.tile(P, s4, w, None)
                    el = seq_get(s4, s4.content(data), w)
                    P.oblige(s4, 'TileReader.ReadTiles.ensures.contents', seq_eq(s4, s4.content(el), stored(
                        s4, tilepath(s4, tf(P, t, 'L'), tf(P, t, 'N'), tf(P, t, 'W')))))
                P.all_paths(st2.clone(), chk)
                s3 = st2.clone()
                e = newerr(s3)
                rec(s3, 'ReadHashes', e)
                outs.append((s3, 'ret', (P.zero(s3, i['results'][0]), e)))
                dd = SliceV(Ptr(SymObj(focus['data'], -1 - bt)), 0, mm, mm, False)
                for s5, k5, r5 in P.call(st2, ('invoke', 'SaveTiles', trv, rt), [tiles, dd], {'results': []}):
                    if k5 == 'ret':
                        rec(s5, 'ReadHashes', 'ok', n=n, root=root)
                        r5 = (P.fresh(s5, i['results'][0], 'hashes'), NILIF)
                    outs.append((s5, k5, r5))
        return outs
    P.imodels[('*', 'ReadHashes')] = readhashes


def authbytes(P, st, plan, focus, L):
    """the authenticated bytes of the plan's tile of level L"""
    v = P.mk(st, P.tid['[]byte'], 'el', [focus['data'], plan.idx(L)])
    return st.content(v)


TWB = CS + 'tileWithBytes'


def twb(P, v):
    return v.f[fidx(P, TWB, 'Tile')], v.f[fidx(P, TWB, 'Bytes')]


def tile_is(P, t, L, N, W):
    return And(eqt(tf(P, t, 'H'), 8), eqt(tf(P, t, 'L'), L), eqt(tf(P, t, 'N'), N), eqt(tf(P, t, 'W'), W))


def unj(P, st, seq, tname, keys):
    pass


def pool_models(P):
    m = P.models
    m[XU + 'NewPEMCertPool'] = lambda P, st, args, i: (newpool(P, st),)

    def addcert(P, st, args, i):
        st.ghost['events'] = st.ghost.get('events', Seq()) + unit(St(None, (Opaque(term(args[0]), None), Opaque(term(args[1]), None))))
        return ()
    m['(*%sPEMCertPool).AddCert' % XU] = addcert

    def parse(P, st, args, i):
        bt = core.reifyst(st, st.content(args[0]))
        c = uf('x509cert', [bt], core.U)
        st.fact(c != NIL)
        s2 = st.clone()
        st.fact(uf('x509ok', [bt], BOOL))
        s2.fact(z3.Not(uf('x509ok', [bt], BOOL)))
        e = newerr(s2)
        rec(s2, 'ParseCertificate', e)
        return [(st, 'ret', (Ptr(SymObj(c, P.tid[CERT])), NILIF)), (s2, 'ret', (None, e))]
    m['github.com/google/certificate-transparency-go/x509.ParseCertificate'] = parse


def newpool(P, st):
    p = symobj(P, st, XU + 'PEMCertPool', 'pool')
    return p


def pubkey(P, key):
    """the address of the public part of a key"""
    return Ptr(key.obj, key.path + (fidx(P, ECPRIV, 'PublicKey'),))


def x509_models(P):
    m = P.models

    def pub(P, st, args, i):
        return (Iface('*crypto/ecdsa.PublicKey', pubkey(P, args[0])),)
    m['(*crypto/ecdsa.PrivateKey).Public'] = pub

    def pkix(P, st, args, i):
        a = uf('pkix', [term(args[0].v) if isinstance(args[0], Iface) else term(args[0])], core.U)
        l = uf('len', [a], INT)
        st.fact(z3.And(l >= 1, l < 2 ** 20))
        return okrec(P, st, i, 'MarshalPKIX', dict(key=args[0]), lambda s: (bytesv(P, s, Seq([Sub(a, 0, l)])),))
    m['crypto/x509.MarshalPKIXPublicKey'] = pkix
    m['github.com/google/certificate-transparency-go/x509.MarshalPKIXPublicKey'] = pkix
    # ct-go's fork of ParseECPrivateKey and of ParseCertificate
    m['github.com/google/certificate-transparency-go/x509.ParseECPrivateKey'] = m['crypto/x509.ParseECPrivateKey']

    def tparse(P, st, args, i):
        bt = core.reifyst(st, args[1])
        t = uf('timeparse', [core.reifyst(st, args[0]), bt], core.U)
        return okrec(P, st, i, 'time.Parse', {}, lambda s: (Opaque(t, i['results'][0]),))
    m['time.Parse'] = tparse


def gcfield(st, P, bt, key, ty):
    return P.mk(st, P.tid[ty], 'unjson.' + key.lower(), [bt])


def watching(P, st, cal, args, lost):
    """the goroutine ends the process once the channel lost is closed, whatever else it waits for"""
    hook, ok = P.recv_hook, [True]

    def recv(P, s, ch, i):
        if ch is not None and term(ch).eq(term(lost)):
            s.ghost['sawlost'] = True
            return [(s, P.zero(s, ch.elem), False)]
        if P.sel is None or not any(c.eq(term(lost)) for c in P.sel[0]):
            ok[0] = False       # waits for something else only
            return []
        if s.ghost.get('sawother'):
            return []           # back to watching
        s.ghost['sawother'] = True
        return [(s, P.fresh(s, ch.elem, 'recv'), s.fresh_bool('ok'))]
    P.recv_hook = recv
    try:
        outs = P.call(st.clone(), cal, args, {'results': []})
    except Unsupported:
        return False
    finally:
        P.recv_hook = hook
    return ok[0] and bool(outs) and all(k == 'panic' and s.ghost.get('sawlost') for s, k, r in outs if s.feasible())


def lock_clauses(P, st, lg, cs, kvpath, addr):
    """what a running log owes to its lock"""
    lk = [c for c in cs if c[0] == 'Lock']
    held = [c for c in lk if c[2] == 'ok']
    P.oblige(st, 'ensures.lock.acquired', len(lk) == 1 and len(held) == 1)
    if len(held) != 1:
        return
    h = held[0]
    cl = [c for c in cs if c[0] == 'consul.NewClient']
    P.oblige(st, 'ensures.lock.of-the-configured-consul', len(cl) == 1 and seq_eq(st, cl[0][1]['addr'], addr))
    ks = [c for c in cs if c[0] == 'LockKey']
    P.oblige(st, 'ensures.lock.key', len(ks) == 1 and seq_eq(st, ks[0][1]['key'], kvpath + lit('/lock')))
    P.oblige(st, 'ensures.lock.session-of-its-own', h[1]['own'])
    at = cs.index(h)
    P.oblige(st, 'ensures.lock.before-the-state-is-read', not [c for c in cs[:at] if c[0] in ('consul.Get', 'Get', 'ReadHashes')])
    P.oblige(st, 'ensures.lock.kept', not [c for c in cs if c[0] == 'Unlock'])
    L = st.load(lg)
    P.oblige(st, 'ensures.lock.handed-to-the-log', term(L.f[fidx(P, CS + 'Log', 'eStop')]).eq(term(h[1]['lock'])))
    gos = [c for c in cs if c[0] == 'go']
    P.oblige(st, 'ensures.lock.loss-ends-the-process', any(g[2](term(h[1]['ch'])) and watching(P, st, g[1]['cal'], g[1]['args'], h[1]['ch']) for g in gos))


def go_events(P):
    """record the goroutines started; each also evaluated in the state it is started in"""
    def go(P, st, cal, args, i=None):
        s0 = st.clone()
        memo = {}

        def early(t):
            k = t.sexpr()
            if k not in memo:
                c = [c for c in calls(s0) if c[0] == 'Lock' and c[2] == 'ok' and term(c[1]['ch']).eq(t)]
                memo[k] = bool(c) and watching(P, s0, cal, args, c[0][1]['ch'])
            return memo[k]
        rec(st, 'go', early, cal=cal, args=args)
    P.go_hook = go


def loadlog(P):
    go_events(P)
    install_io(P)
    install_crypto(P)
    install_storage(P)
    install_path(P)
    consul_models(P)
    pool_models(P)
    x509_models(P)
    P.prefix = 'ctsubmit.LoadLog/'
    st = State(P)
    plan = TilePlan(st.fresh_u('plan'))
    focus = {'w': st.fresh_int('w'), 'data': st.fresh_u('authdata'), 'q': st.fresh_int('q', -2 ** 63, 2 ** 63 - 1), 'r': st.fresh_int('r')}
    tlog_models(P, plan, focus)

    def inv(s, id, k, key, v):
        here = And(plan.inS(key), lt(plan.idx(key), k))
        if v is None:
            return Not(here)
        t, b = twb(P, v)
        return And(here, tile_is(P, t, key, plan.N(key), plan.W(key)), seq_eq(s, s.content(b), authbytes(P, s, plan, focus, key)))
    install_mapinv(P, lambda mv: mv.vt is not None and P.T(mv.vt)['s'] == TWB, inv, lambda s: focus['q'])
    kvpath, addr = st.fresh_seq('kvpath'), st.fresh_seq('addr')
    st.fact(plan.inS(0))
    st.fact(P.mk(st, P.tid['uint64'], 'unjson.tree_size', [core.reifyst(st, stored(st, lit('ct/v1/get-sth')))]) < 2 ** 62)
    outs = nopanic(P, run(P, st, CS + 'LoadLog', [SymIface(nn(st, 'ctx')), kvpath, addr]), 'no-panic')

    def post(st, k, r):
        lg, err = r
        cs = calls(st)
        fails = [c for c in cs if c[0] not in ('go', 'Unlock') and c[2] != 'ok']
        if not st.decide(isnil(st, err)):
            return
        P.oblige(st, 'ensures.success-only-if-every-step-succeeded', not fails)
        P.oblige(st, 'ensures.log-returned', Not(isnil(st, lg)))
        if lg is None:
            return
        L = st.load(lg)
        g = lambda v, t, f: v.f[fidx(P, t, f)]
        z, o, w = [g(L, CS + 'Log', n) for n in ('stageZeroData', 'stageOneData', 'stageTwoData')]
        gz = lambda f: g(z, CS + 'stageZeroData', f)
        go_ = lambda f: g(o, CS + 'stageOneData', f)
        gw = lambda f: g(w, CS + 'stageTwoData', f)
        lock_clauses(P, st, lg, cs, kvpath, addr)
        # configuration
        kv = [c for c in cs if c[0] == 'consul.Get']
        P.oblige(st, 'ensures.config-read', len(kv) == 1 and seq_eq(st, kv[0][1]['key'], kvpath + lit('/config')) and kv[0][1]['pair'] is not None)
        val = st.load(Ptr(kv[0][1]['pair'].obj, (fidx(P, CONS + 'KVPair', 'Value'),)))
        cb = core.reifyst(st, st.content(val))
        cf = lambda key, ty='string': gcfield(st, P, cb, key, ty)
        # key and log id
        rs = [c for c in cs if c[0] == 'ReadFile']
        P.oblige(st, 'ensures.key-file', len(rs) == 1 and seq_eq(st, rs[0][1]['name'], cf('keyPath')))
        blk = uf('pemblock', [core.reifyst(st, rs[0][1]['content'])], core.U)
        der = P.symload(st, SymObj(blk, P.tid['encoding/pem.Block']), (fidx(P, 'encoding/pem.Block', 'Bytes'),))
        key = Ptr(SymObj(uf('eckey', [core.reifyst(st, st.content(der))], core.U), P.tid[ECPRIV]))
        pk = uf('pkix', [term(pubkey(P, key))], core.U)
        l = uf('len', [pk], INT)
        idd = ext.sha256(st, Seq([Sub(pk, 0, l)]))
        std = P.symload(State(P), SymObj(z3.Const('g:encoding/base64.StdEncoding', core.U), P.tid['*encoding/base64.Encoding']), ())
        b64 = ext.b64enc(P, st, [std, bytesv(P, st, idd)], None)[0]
        P.oblige(st, 'ensures.configured-id-is-the-hash-of-the-key', seq_eq(st, cf('logID'), b64))
        P.oblige(st, 'ensures.log-id', seq_eq(st, gz('logID'), idd))
        P.oblige(st, 'ensures.signing-key', And(term(gz('signingKey')) == term(key), term(gw('signingKey')) == term(key)))
        # storage
        s3a = [cf(x) for x in ('s3Region', 's3Bucket', 's3EndpointUrl', 's3StaticCredentialUserName', 's3StaticCredentialPassword')]
        stor = [g(b, CS + 'Bucket', 'S') for b in (gz('bucket'), gw('bucket'))]
        P.oblige(st, 'ensures.storage', And(*[isinstance(x, Iface) and x.ty is not None and selected(P, st, x.v, cf('rootDirectory'), s3a) for x in stor]))
        P.oblige(st, 'ensures.one-storage', And(*[c[1]['recv'].obj == stor[0].v.obj for c in cs if c[0] == 'Get']))
        # channels
        P.oblige(st, 'ensures.channels', And(term(gz('stageOneTx')) == term(go_('stageOneRx')), term(go_('stageTwoTx')) == term(gw('stageTwoRx')),
                                             not term(gz('stageOneTx')).eq(term(go_('stageTwoTx')))))
        # published state
        sb = core.reifyst(st, stored(st, lit('ct/v1/get-sth')))
        size = P.mk(st, P.tid['uint64'], 'unjson.tree_size', [sb])
        P.oblige(st, 'ensures.continues-from-the-published-size', And(eqt(go_('startingSequence'), size), eqt(gw('treeSize'), size)))
        P.oblige(st, 'ensures.settings', And(eqt(gz('maskSize'), cf('maskSize', 'int')), eqt(gw('maskSize'), cf('maskSize', 'int')),
                                             eqt(go_('flushMs'), cf('flushMs', 'int')), seq_eq(st, gw('checkpointOrigin'), cf('name'))))
        rf = core.reify(lit('2006-01-02T15:04:05Z07:00'))
        tm = lambda x: uf('timeparse', [rf, core.reifyst(st, x)], core.U)
        P.oblige(st, 'ensures.window', And(term(gz('notAfterStart')) == tm(cf('notAfterStart')), term(gz('notAfterLimit')) == tm(cf('notAfterLimit'))))
        # accepted roots
        rb = core.reifyst(st, stored(st, lit('ct/v1/get-roots')))
        certs = P.mk(st, P.tid['[][]byte'], 'unjson.certificates', [rb])
        ev = st.ghost.get('events', Seq())
        P.oblige(st, 'ensures.accepted-roots.count', eqt(ev.len, certs.len))
        rr = focus['r']
        st.fact(z3.And(rr >= 0, rr < tz(certs.len)))

        def rchk(s):
            e = seq_get(s, ev, rr)
            c = seq_get(s, s.content(certs), rr)
            x = uf('x509cert', [core.reifyst(s, s.content(c))], core.U)
            P.oblige(s, 'ensures.accepted-roots', And(term(e.f[0]) == term(gz('roots')), term(e.f[1]) == term(Ptr(SymObj(x, P.tid[CERT])))))
        if s_feasible(st):
            P.all_paths(st.clone(), rchk)
        # edge tiles
        em = P.mapv(st, gw('edgeTiles'))
        zero = st.decide(eqt(size, 0))
        auth = [c for c in cs if c[0] == 'ReadHashes']

        def tiles(s):
            v, ok = P.mapv_lookup(s, em, -1, em.vt)
            P.oblige(s, 'ensures.data-tile-present', ok)
            if not ok:
                return
            t, b = twb(P, v)
            if zero:
                P.oblige(s, 'ensures.empty-data-tile', And(tile_is(P, t, -1, 0, 0), eqt(b.len, 0)))
            else:
                P.oblige(s, 'ensures.data-tile', And(tile_is(P, t, -1, plan.N(0), plan.W(0)), seq_eq(s, s.content(b), stored(
                    s, tilepath(s, -1, plan.N(0), plan.W(0))))))
        P.all_paths(st.clone(), tiles)

        def levels(s):
            q = focus['q']
            s.fact(q >= 0)
            v, ok = P.mapv_lookup(s, em, q, em.vt)
            if zero:
                P.oblige(s, 'ensures.no-hash-tiles-of-the-empty-tree', not ok)
                return
            P.oblige(s, 'ensures.edge-tile-iff-authenticated', plan.inS(q) if ok else Not(plan.inS(q)))
            if ok:
                t, b = twb(P, v)
                P.oblige(s, 'ensures.edge-tile', And(tile_is(P, t, q, plan.N(q), plan.W(q)), seq_eq(s, s.content(b), authbytes(P, s, plan, focus, q))))
        P.all_paths(st.clone(), levels)
        if not zero:
            root = P.mk(st, P.tid['github.com/google/certificate-transparency-go.SHA256Hash'], 'unjson.sha256_root_hash', [sb])
            P.oblige(st, 'ensures.authenticated-against-the-tree-head', len(auth) == 1 and And(eqt(auth[0][1]['n'], size), seq_eq(st, auth[0][1]['root'], root)))
    forall(P, outs, post)
    reach(P, outs, 'reach.empty', lambda st, k, r: st.decide(isnil(st, r[1])) and not [c for c in calls(st) if c[0] == 'ReadHashes'])
    reach(P, outs, 'reach.grown', lambda st, k, r: st.decide(isnil(st, r[1])) and bool([c for c in calls(st) if c[0] == 'ReadHashes']))
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(Not(isnil(st, r[1]))))


def s_feasible(st):
    return st.feasible()



def without(f, name):
    def check(P):
        P.dropped = lambda n: name in n
        f(P)
        for n in [n for n in P.obls if name in n]:
            del P.obls[n]
    return check


UNITS = [('LoadLog', without(loadlog, '/ensures.lock.'))]
UNDER = [CS + 'LoadLog', '(*%sTileReader).Height' % SL, '(*%sTileReader).ReadTiles' % SL, '(*%sTileReader).SaveTiles' % SL, SL + 'Path (contract proved in C11)']
ASSUMPTIONS = ['tlog.TileHashReader(tree, tr).ReadHashes of the last leaf requests exactly one tile per level of a set of levels containing level 0, each the rightmost one of its level, authenticates the tile bytes against the tree head and only then calls SaveTiles and succeeds',
               'the published tree size is below 2^62', 'consul client, PEM, DER, PKIX and time parsing are functions of their input (or fail)']
REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c16_test.go', 'test': 'TestVerifC16', 'with': ['vh_test.go', 'vhs3_test.go', 'vhlog_test.go']}]
from mains import submit_main, submit_command
UNITS += [('MainMain', submit_main), ('command', submit_command)]
UNDER += [CS + 'MainMain', 'itko.dev/cmd/itko-submit.main']
