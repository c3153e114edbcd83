"""Contracts of the object writers stage two publishes through (C01, C04): Bucket.Set*, sunlight.SignTreeHead; picking obligations."""
from iomodels import *
from storage import *
from cryptomodels import *
import ext

BK = CS + 'Bucket'
CERT = 'github.com/google/certificate-transparency-go/x509.Certificate'


def pick(f, keep, drop=()):
    """the obligations of a shared unit that belong to one property; the engine's own obligations always count"""
    def check(P):
        own = lambda n: any(('/' + x) in n for x in keep)
        other = lambda n: any(('/' + x) in n for x in drop)
        P.dropped = lambda n: other(n) and not own(n)
        try:
            f(P)
        finally:
            pre = P.prefix
            n0 = len(P.obls)
            for n in [n for n in P.obls if other(n) and not own(n)]:
                del P.obls[n]
            if n0:
                for x in keep:
                    n = pre + 'has.' + x
                    ok = any(('/' + x) in m for m in P.obls)
                    P.obls[n] = {'name': n, 'paths': 1, 'time': 0.0, 'failed': [] if ok else [
                        {'msg': 'no execution reaches this clause', 'status': 'unreachable', 'trace': [], 'cond': '', 'model': ''}]}
    return check


def setup(P):
    install_io(P)
    install_path(P)
    P.imodels[('*', 'Set')] = st_set
    P.imodels[('*', 'Get')] = st_get()
    P.imodels[('*', 'Exists')] = st_exists


def bucket(P, st):
    b = Ptr(SymObj(nn(st, 'bucket'), P.tid[BK]))
    ctx = SymIface(nn(st, 'ctx'))
    S = fieldval(P, st, b, BK, 'S')
    st.fact(term(S) != NIL)
    return b, ctx, S


def writer(name, mk, key, exists=False):
    """Set*: nil only when the storage acknowledged (or already had) exactly this object; no other object is written"""
    def check(P):
        setup(P)
        P.prefix = 'Bucket.%s/stored.writer.' % name
        st = State(P)
        b, ctx, S = bucket(P, st)
        args, data = mk(P, st)
        outs = nopanic(P, run(P, st, '(*%s).%s' % (BK, name), [b, ctx] + args), 'no-panic')

        def post(st, k, r):
            want = key(P, st, args)
            ss = [c for c in calls(st) if c[0] == 'Set']
            for c in ss:
                P.oblige(st, 'own-object-only', seq_eq(st, c[1]['key'], want))
                P.oblige(st, 'content', seq_eq(st, c[1]['data'], data(P, st, args)))
                P.oblige(st, 'own-storage', term(c[1]['recv']) == term(S))
            e = r[0] if isinstance(r, tuple) else r
            if st.decide(isnil(st, e)):
                had = [c for c in calls(st) if exists and c[0] == 'Exists' and c[2] == 'ok' and c[1]['exists']]
                for c in had:
                    P.oblige(st, 'looked-for-its-own-object', And(seq_eq(st, c[1]['key'], want), term(c[1]['recv']) == term(S)))
                P.oblige(st, 'nil-only-if-stored', any(c[2] == 'ok' for c in ss) or bool(had))
                return 'ok'
            # an error has a cause (else the sequencer would stop for nothing): not part of the property, but keeps the contract honest
            return 'err'
        forall(P, outs, lambda st, k, r: post(st, k, r))
        reach(P, outs, 'reach.ok', lambda st, k, r: post(st, k, r) == 'ok')
        reach(P, outs, 'reach.err', lambda st, k, r: post(st, k, r) == 'err')
    return check


def mkdata(P, st):
    d = P.fresh(st, P.tid['[]byte'], 'data')
    return [d], lambda P, st, a: st.content(d)


def mktile(P, st):
    t = P.fresh(st, P.tid[TILE], 'tile')
    d = P.fresh(st, P.tid['[]byte'], 'data')
    st.fact(tz(eqt(tf(P, t, 'H'), 8)))
    return [t, d], lambda P, st, a: st.content(d)


def mkcert(P, st):
    c = Ptr(SymObj(nn(st, 'cert'), P.tid[CERT]))
    return [c], lambda P, st, a: st.content(fieldval(P, st, c, CERT, 'Raw'))


def issuer_key(P, st, a):
    return lit('issuer/') + ext.hexstr(st, ext.sha256(st, st.content(fieldval(P, st, a[0], CERT, 'Raw'))))


WRITERS = [('SetTile', writer('SetTile', mktile, lambda P, st, a: tilepath(st, tf(P, a[0], 'L'), tf(P, a[0], 'N'), tf(P, a[0], 'W')))),
           ('SetSth', writer('SetSth', mkdata, lambda P, st, a: lit('ct/v1/get-sth'))),
           ('SetCheckpoint', writer('SetCheckpoint', mkdata, lambda P, st, a: lit('checkpoint'))),
           ('SetIssuer', writer('SetIssuer', mkcert, issuer_key, exists=True))]


def signth(P):
    """SignTreeHead: the get-sth object of exactly this size, time and root, signed with exactly this key"""
    install_io(P)
    install_crypto(P)
    P.prefix = 'sunlight.SignTreeHead/tree.'
    st = State(P)
    key = Ptr(SymObj(nn(st, 'key'), P.tid[ECPRIV]))
    size, ts = st.fresh_int('size', 0, 2 ** 63 - 1), st.fresh_int('ts', 0, 2 ** 63 - 1)
    root = st.fresh_seq('root', 32)
    outs = nopanic(P, run(P, st, SL + 'SignTreeHead', [key, size, ts, root]), 'no-panic')

    def post(st, k, r):
        if not st.decide(isnil(st, r[1])):
            return False
        P.oblige(st, 'get-sth-object', seq_eq(st, st.content(r[0]), sth_json(P, st, term(key), size, ts, root)))
        return True
    forall(P, outs, lambda st, k, r: post(st, k, r))
    reach(P, outs, 'reach.signed', post)
