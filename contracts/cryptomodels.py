"""Trusted contracts of the cryptographic dependencies and the contract of rfc6979.Sign (proved in C09)."""
from verify import *
from spec import *
from leaf import fidx
from iomodels import rec, calls, nn, newerr, bytesv
import core, ext

CT = 'github.com/google/certificate-transparency-go.'
ECPRIV = 'crypto/ecdsa.PrivateKey'


def ecdsasig(st, key, digest):
    """the deterministic ECDSA signature: a function of key and digest (C09)"""
    t = uf('ecdsasig', [key, core.reifyst(st, digest)], core.U)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 8, l <= 142))
    return Seq([Sub(t, 0, l)])


def rfc_sign(P, st, args, i):
    """contract of rfc6979.Sign: SHA-256 digests give the deterministic signature of (key, digest), or an error"""
    P.contracted = getattr(P, 'contracted', set()) | {'itko.dev/internal/rfc6979.Sign'}
    P.oblige(st, 'rfc6979.Sign.requires.sha256', args[2] == 5)  # crypto.SHA256
    d = st.content(args[1])
    s = ecdsasig(st, term(args[0]), d)
    s2 = st.clone()
    rec(st, 'Sign', 'ok', key=args[0], digest=d)
    e = newerr(s2)
    rec(s2, 'Sign', e, key=args[0], digest=d)
    return [(st, 'ret', (bytesv(P, st, s), NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), e))]


def sthfield(P, st, v, f):
    return v.f[fidx(P, CT + 'SignedTreeHead', f)]


def sth_input(size, ts, root):
    """RFC 6962 3.5 TreeHeadSignature input"""
    return lit(b'\0\1') + be(8, ts) + be(8, size) + root


def ser_sth(P, st, args, i):
    v = args[0]
    g = lambda f: sthfield(P, st, v, f)
    kw = dict(version=g('Version'), size=g('TreeSize'), ts=g('Timestamp'), root=g('SHA256RootHash'))
    s2 = st.clone()
    outs = []
    rec(st, 'SerSTH', 'ok', **kw)
    e = newerr(s2)
    rec(s2, 'SerSTH', e, **kw)
    r = [(s2, 'ret', (P.zero(s2, i['results'][0]), e))]
    if st.decide(eqt(kw['version'], 0)):
        r.insert(0, (st, 'ret', (bytesv(P, st, sth_input(kw['size'], kw['ts'], kw['root'])), NILIF)))
    return r


def signed(st, key, msg):
    """RFC 5246 digitally-signed: sha256, ecdsa, 16-bit length, signature over sha256(msg)"""
    sig = ecdsasig(st, key, ext.sha256(st, msg))
    return lit(b'\4\3') + be(2, sig.len) + sig


def is_sha256(st, d, msg):
    """sufficient: d was computed as the digest of a message equal to msg"""
    p = [x for x in d.p if not (isinstance(x, Sub) and eqt(x.len, 0) is True)]
    if len(p) != 1 or not isinstance(p[0], Sub) or eqt(p[0].off, 0) is not True or eqt(p[0].len, 32) is not True:
        return False
    pre = st.prog.sha_pre.get(p[0].atom.get_id())
    return False if pre is None else seq_eq(st, pre[1], msg)


def is_signed(st, c, key, msg):
    """sufficient: c is the digitally-signed struct of this key over msg"""
    alts = []
    for x in calls(st):
        if x[0] == 'Sign' and x[2] == 'ok':
            sig = ecdsasig(st, term(x[1]['key']), x[1]['digest'])
            alts.append(And(term(x[1]['key']) == key, is_sha256(st, x[1]['digest'], msg), seq_eq(st, c, lit(b'\4\3') + be(2, sig.len) + sig)))
    return Or(*alts) if alts else False


STHSIG = '{tree_size:uint64 timestamp:uint64 sha256_root_hash:b64 tree_head_signature:b64}'


def sth_json(P, st, key, size, ts, root):
    """the get-sth object"""
    return ext.jsonval(P, st, STHSIG, [size, ts, root, signed(st, key, sth_input(size, ts, root))])


def unixmilli(P, st, args, i):
    v = uf('unixmilli', [term(args[0])], INT)
    st.fact(z3.And(v >= 0, v < 2 ** 62))
    return (v,)


def time_now(P, st, args, i):
    n = st.fresh_u('now')
    v = Opaque(n, i['results'][0])
    rec(st, 'Now', 'ok', t=n)
    return (v,)


def pem_decode(P, st, args, i):
    """the first PEM block of the text, nil when there is none; a function of the text"""
    bt = core.reifyst(st, st.content(args[0]))
    b = uf('pemblock', [bt], core.U)
    return (Ptr(SymObj(b, P.tid['encoding/pem.Block'])), P.mk(st, i['results'][1], 'pemrest', [bt]))


def parse_eckey(P, st, args, i):
    """a function of the DER bytes: a private key (never nil), or an error"""
    bt = core.reifyst(st, st.content(args[0]))
    if st.decide(uf('eckeyok', [bt], BOOL)):
        k = uf('eckey', [bt], core.U)
        st.fact(k != NIL)
        rec(st, 'ParseECKey', 'ok', key=k)
        return (Ptr(SymObj(k, P.tid[ECPRIV])), NILIF)
    e = newerr(st)
    rec(st, 'ParseECKey', e)
    return (None, e)


def hash_models(P):
    """sha256.New: an accumulator"""
    m = P.models

    def new(P, st, args, i):
        h = nn(st, 'sha256')
        st.ghost['hashstate'] = {**st.ghost.get('hashstate', {}), h.decl().name(): Seq()}
        return (SymIface(h),)
    m['crypto/sha256.New'] = new

    def newof(P, st, args, i):
        if args[0] != 5:
            raise Unsupported('hash %r' % (args[0],))
        return new(P, st, args, i)
    m['(crypto.Hash).New'] = newof      # crypto.SHA256

    def get(st, h):
        d = st.ghost.get('hashstate', {})
        if not isinstance(h, SymIface) or h.t.decl().name() not in d:
            raise Unsupported('unknown hash')
        return d, h.t.decl().name()

    def write(P, st, args, i):
        d, k = get(st, args[0])
        s = ext.seqof(st, args[1])
        st.ghost['hashstate'] = {**d, k: d[k] + s}
        return (s.len, NILIF)
    P.imodels[('hash.Hash', 'Write')] = write
    prev = m.get('io.WriteString')

    def wstr(P, st, a, i):
        if isinstance(a[0], SymIface) and a[0].t.decl().name() in st.ghost.get('hashstate', {}):
            return write(P, st, a, i)
        if prev is None:
            raise Unsupported('io.WriteString to an unknown writer')
        return prev(P, st, a, i)
    m['io.WriteString'] = wstr

    def hsum(P, st, args, i):
        d, k = get(st, args[0])
        s = ext.sha256(st, d[k])
        if args[1].base is None:
            return (P.newslice(st, s, et=P.tid['uint8'] if 'uint8' in P.tid else None),)
        return (P.append(st, args[1], s),)
    P.imodels[('hash.Hash', 'Sum')] = hsum


def install_crypto(P):
    m = P.models
    hash_models(P)
    P.opaque_types.add('time.Time')
    m['itko.dev/internal/rfc6979.Sign'] = rfc_sign
    m[CT + 'SerializeSTHSignatureInput'] = ser_sth
    m['time.Now'] = time_now
    m['(time.Time).UnixMilli'] = unixmilli
    m['encoding/pem.Decode'] = pem_decode
    m['crypto/x509.ParseECPrivateKey'] = parse_eckey
