"""Ghost encodings of a log entry (spec side) and entry construction."""
from core import *
import core
from spec import *

ENTRY = SL + 'LogEntry'
FIELDS = ['Certificate', 'IsPrecert', 'IssuerKeyHash', 'PreCertificate', 'CertificateFp', 'ChainFp', 'Chain', 'Timestamp', 'LeafIndex']


def fidx(P, tname, f):
    fs = P.U(P.tid[tname])['fields']
    for n, x in enumerate(fs):
        if x['n'] == f:
            return n
    raise Unsupported('no field %s in %s' % (f, tname))


def entry_fields(P, st, e):
    """dict of spec-level field values of a LogEntry struct value"""
    g = lambda f: e.f[fidx(P, ENTRY, f)]
    return dict(cert=st.content(g('Certificate')), pre=st.content(g('PreCertificate')), isp=g('IsPrecert'), ikh=g('IssuerKeyHash'),
                fps=st.content(g('ChainFp')), ts=g('Timestamp'), idx=g('LeafIndex'), cfp=g('CertificateFp'))


def u64(ts):
    """two's complement view of an int64"""
    if not isz(ts):
        return ts % U64
    return simp(z3.If(ts < 0, ts + U64, ts))


def u64st(st, ts):
    if not isz(ts):
        return ts % U64
    if st.decide(ge(ts, 0)):
        return ts
    return add(ts, U64)


def timestamped(st, f):
    """RFC 6962 TimestampedEntry of the entry; forks on the entry type"""
    out = be(8, u64st(st, f['ts']))
    if st.decide(f['isp']):
        out = out + be(2, 1) + f['ikh']
    else:
        out = out + be(2, 0)
    out = out + be(3, f['cert'].len) + f['cert']
    e = ext_bytes(f['idx'])
    return out + be(2, e.len) + e


def merkle_leaf(st, f):
    return lit(b'\0\0') + timestamped(st, f)


def fp_concat(st, f):
    """concatenation of the chain fingerprints"""
    s = f['fps']
    if len(s.p) == 1 and isinstance(s.p[0], Sub):
        p = s.p[0]
        k = z3.Int('kfp')
        el = st.prog.mk(st, p.ety, 'el', [p.atom, k])
        fam = Family(k, [(True, tuple(el.p))], [uf('len', [el.p[0].atom], INT) == 32], elen=32, name='fp:%s:%s' % (p.atom, p.ety))
        return Seq([Cat(fam, p.off, add(p.off, p.len))])
    out = Seq()
    for p in s.p:
        for v in p.v:
            out = out + v
    return out


def tile_leaf(st, f):
    out = timestamped(st, f)
    if st.decide(f['isp']):
        out = out + be(3, f['pre'].len) + f['pre']
    fp = fp_concat(st, f)
    return out + be(2, mul(f['fps'].len, 32)) + fp


def sym_entry(P, st, name='e'):
    """an arbitrary LogEntry within the format limits"""
    o = SymObj(st.fresh_u('nn:' + name), P.tid[ENTRY])
    e = P.symload(st, o, ())
    f = entry_fields(P, st, e)
    return o, e, f


def limits(f):
    """the documented size limits of an entry"""
    return And(lt(f['cert'].len, 2 ** 24), lt(f['pre'].len, 2 ** 24), lt(f['fps'].len, 2048), lt(f['idx'], 2 ** 40), ge(f['idx'], 0))
