"""C20: bootstrapping of a new log (ctsetup)."""
from iomodels import *
from cryptomodels import *

SETUP = 'itko.dev/internal/ctsetup.'
GC = CS + 'GlobalConfig'
XU = 'github.com/google/certificate-transparency-go/x509util.'
CERT = 'github.com/google/certificate-transparency-go/x509.Certificate'


def gcf(P, gc, f):
    return gc.f[fidx(P, GC, f)]


def roots_content(P, st, file):
    """the certificates of a PEM bundle, in order"""
    a = uf('rootsof', [core.reifyst(st, file)], core.U)
    n = uf('len', [a], INT)
    st.fact(z3.And(n >= 0, n < 2 ** 32))
    return a, n


def raws(P, st, a, n):
    """the DER bytes of those certificates (a sequence of byte strings)"""
    k = z3.Int('kcert')
    return a, n, k


def setup_models(P):
    P.nonnil.add('*' + CERT)
    install_io(P)
    install_crypto(P)
    m = P.models

    def append(P, st, args, i):
        s2 = st.clone()
        rec(st, 'AppendCertsFromPEMFile', 'ok', pool=args[0], name=args[1])
        e = newerr(s2)
        rec(s2, 'AppendCertsFromPEMFile', e, pool=args[0], name=args[1])
        return [(st, 'ret', (NILIF,)), (s2, 'ret', (e,))]

    def newpool(P, st, args, i):
        p = symptr_(P, st, XU + 'PEMCertPool', 'pool')
        rec(st, 'NewPool', 'ok', pool=p)
        return (p,)

    def rawcerts(P, st, args, i):
        """all certificates added to this pool so far, in order (exactly one bundle)"""
        cs = [c for c in calls(st) if c[0] == 'AppendCertsFromPEMFile' and term(c[1]['pool']).eq(term(args[0]))]
        if len(cs) != 1 or cs[0][2] != 'ok':
            return (P.fresh(st, i['results'][0], 'otherroots'),)
        a, n = roots_content(P, st, cs[0][1]['name'])
        t = i['results'][0]
        return (SliceV(Ptr(SymObj(a, -1 - P.U(t)['elem'])), 0, n, n, False),)
    m[XU + 'NewPEMCertPool'] = newpool
    m['(*%sPEMCertPool).AppendCertsFromPEMFile' % XU] = append
    m['(*%sPEMCertPool).RawCertificates' % XU] = rawcerts

    def newfs(P, st, args, i):
        t = P.tid[CS + 'FsStorage']
        v = P.fresh(st, t, 'fs')
        rec(st, 'NewFsStorage', 'ok', root=args[0], v=core.term(v) if not isinstance(v, St) else deep(P, st, v))
        return (v,)

    def news3(P, st, args, i):
        t = P.tid[CS + 'S3Storage']
        v = P.fresh(st, t, 's3')
        rec(st, 'NewS3Storage', 'ok', args=tuple(args), v=deep(P, st, v))
        return (v,)
    m[CS + 'NewFsStorage'] = newfs
    m[CS + 'NewS3Storage'] = news3

    def sset(kind):
        def f(P, st, args, i):
            s2 = st.clone()
            v = deep(P, st, st.load(args[0]))
            kw = dict(kind=kind, recv=v, ctx=args[1], key=args[2], data=st.content(args[3]))
            rec(st, 'Set', 'ok', **kw)
            e = newerr(s2)
            rec(s2, 'Set', e, **kw)
            return [(st, 'ret', (NILIF,)), (s2, 'ret', (e,))]
        return f
    m['(*%sFsStorage).Set' % CS] = sset('fs')
    m['(*%sS3Storage).Set' % CS] = sset('s3')
    consul = 'github.com/hashicorp/consul/api.'
    m[consul + 'DefaultConfig'] = lambda P, st, args, i: (fresh_obj(P, st, consul + 'Config'),)
    m[consul + 'NewClient'] = lambda P, st, args, i: okrec(P, st, i, 'consul.NewClient', dict(addr=st.load(Ptr(args[0].obj, (fidx(P, consul + 'Config', 'Address'),)))),
                                                           lambda s: (symptr_(P, s, consul + 'Client', 'consul'),))
    m['(*%sClient).KV' % consul] = lambda P, st, args, i: (symptr_(P, st, consul + 'KV', 'kv'),)

    def kvput(P, st, args, i):
        g = lambda f: st.load(Ptr(args[1].obj, tuple(args[1].path) + (fidx(P, consul + 'KVPair', f),)))
        return okrec(P, st, i, 'consul.Put', dict(key=g('Key'), value=st.content(g('Value'))), lambda s: (None,))
    m['(*%sKV).Put' % consul] = kvput


def okrec(P, st, i, op, kw, ok):
    s2 = st.clone()
    rec(st, op, 'ok', **kw)
    e = newerr(s2)
    rec(s2, op, e, **kw)
    return [(st, 'ret', tuple(ok(st)) + (NILIF,)), (s2, 'ret', tuple(P.zero(s2, t) for t in i['results'][:-1]) + (e,))]


def fresh_obj(P, st, tname):
    t = P.tid[tname]
    return Ptr(st.alloc(P.fresh(st, t, tname.split('.')[-1]), t))


def symptr_(P, st, tname, name):
    return Ptr(SymObj(nn(st, name), P.tid[tname]))


def deep(P, st, v):
    return ext.deepterm(P, st, v)


CONFSIG = '{name:string keyPath:string logID:string listenAddress:string maskSize:int rootDirectory:string s3Bucket:string s3Region:string s3EndpointUrl:string s3StaticCredentialUserName:string s3StaticCredentialPassword:string notAfterStart:string notAfterLimit:string flushMs:int}'
CONFORDER = ['Name', 'KeyPath', 'LogID', 'ListenAddress', 'MaskSize', 'RootDirectory', 'S3Bucket', 'S3Region', 'S3EndpointUrl',
             'S3StaticCredentialUserName', 'S3StaticCredentialPassword', 'NotAfterStart', 'NotAfterLimit', 'FlushMs']


def certs_json(P, st, file):
    a, n = roots_content(P, st, file)
    ct = P.tid[CERT]
    k = z3.Int('kcert')
    el = P.mk(st, P.tid['*' + CERT], 'el', [a, k])
    raw = P.symload(st, el.obj, (fidx(P, CERT, 'Raw'),))
    sub = raw if isinstance(raw, Seq) else st.content(raw)
    fam = Family(k, [(True, (Lit([core.reify(sub)]),))], [], 1, name='raws')
    return ext.jsonval(P, st, '{certificates:[]b64}', [Seq([Cat(fam, 0, n)])])


def storage_ok(P, st, c, gc):
    """the Set went to the storage the configuration selects"""
    rd = gcf(P, gc, 'RootDirectory')
    kind = c[1]['kind']
    made = [x for x in calls(st) if x[0] == ('NewFsStorage' if kind == 'fs' else 'NewS3Storage') and x[1]['v'].eq(c[1]['recv'])]
    if not made:
        return False
    if kind == 'fs':
        return And(Not(eqt(rd.len, 0)), seq_eq(st, made[0][1]['root'], rd))
    want = [gcf(P, gc, f) for f in ('S3Region', 'S3Bucket', 'S3EndpointUrl', 'S3StaticCredentialUserName', 'S3StaticCredentialPassword')]
    return And(eqt(rd.len, 0), *[seq_eq(st, a, b) for a, b in zip(made[0][1]['args'], want)])


def failed(st):
    return [c for c in calls(st) if c[2] != 'ok']


def sets(st, name=None):
    return [c for c in calls(st) if c[0] == 'Set' and (name is None or (c[1]['key'].concrete() or b'') == name)]


ROOTS, STH = b'ct/v1/get-roots', b'ct/v1/get-sth'


def roots_post(P, st, gc, file, pre=''):
    ss = sets(st, ROOTS)
    for c in ss:
        P.oblige(st, pre + 'roots.content', seq_eq(st, c[1]['data'], certs_json(P, st, file)))
        P.oblige(st, pre + 'roots.storage', storage_ok(P, st, c, gc))
    return ss


def sth_post(P, st, gc, keyfile, pre=''):
    ss = sets(st, STH)
    for c in ss:
        rs = [x for x in calls(st) if x[0] == 'ReadFile' and x[2] == 'ok']
        ks = [x for x in calls(st) if x[0] == 'SerSTH' and x[2] == 'ok']
        P.oblige(st, pre + 'sth.key-file-read', len(rs) == 1 and seq_eq(st, rs[0][1]['name'], keyfile))
        P.oblige(st, pre + 'sth.one-head-serialised', len(ks) == 1)
        if len(rs) != 1 or len(ks) != 1:
            continue
        blk = uf('pemblock', [core.reifyst(st, rs[0][1]['content'])], core.U)
        der = P.symload(st, SymObj(blk, P.tid['encoding/pem.Block']), (fidx(P, 'encoding/pem.Block', 'Bytes'),))
        key = term(Ptr(SymObj(uf('eckey', [core.reifyst(st, st.content(der))], core.U), P.tid[ECPRIV])))
        ts = ks[0][1]['ts']
        want = sth_json(P, st, key, 0, ts, ext.sha256(st, Seq()))
        P.oblige(st, pre + 'sth.content', seq_eq(st, c[1]['data'], want))
        P.oblige(st, pre + 'sth.storage', storage_ok(P, st, c, gc))
        now = [uf('unixmilli', [x[1]['t']], INT) for x in calls(st) if x[0] == 'Now']
        P.oblige(st, pre + 'sth.timestamp', Or(*[eqt(ts, n) for n in now]) if now else False)
    return ss


def roots(P):
    setup_models(P)
    P.prefix = 'ctsetup.uploadRoots/'
    st = State(P)
    gc = P.fresh(st, P.tid[GC], 'gc')
    file = st.fresh_seq('rootCerts')
    outs = nopanic(P, run(P, st, SETUP + 'uploadRoots', [SymIface(nn(st, 'ctx')), file, gc]), 'no-panic')

    def post(st, k, r):
        ss = roots_post(P, st, gc, file, 'ensures.')
        P.oblige(st, 'ensures.only-the-roots-object', len(sets(st)) == len(ss) and len(ss) <= 1)
        if st.decide(isnil(st, r[0])):
            P.oblige(st, 'ensures.success-only-if-stored', len(ss) == 1 and not failed(st))
        else:
            P.oblige(st, 'ensures.error-only-if-failed', bool(failed(st)))
    forall(P, outs, post)
    for kind in ('fs', 's3'):
        reach(P, outs, 'reach.ok-' + kind, lambda st, k, r: st.decide(isnil(st, r[0])) and sets(st)[0][1]['kind'] == kind)
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(Not(isnil(st, r[0]))))


def emptysth(P):
    setup_models(P)
    P.prefix = 'ctsetup.uploadEmptySth/'
    st = State(P)
    gc = P.fresh(st, P.tid[GC], 'gc')
    file = st.fresh_seq('signingKey')
    outs = nopanic(P, run(P, st, SETUP + 'uploadEmptySth', [SymIface(nn(st, 'ctx')), file, gc]), 'no-panic')

    def post(st, k, r):
        ss = sth_post(P, st, gc, file, 'ensures.')
        P.oblige(st, 'ensures.only-the-sth-object', len(sets(st)) == len(ss) and len(ss) <= 1)
        if st.decide(isnil(st, r[0])):
            P.oblige(st, 'ensures.success-only-if-stored', len(ss) == 1 and not failed(st))
    forall(P, outs, post)
    for kind in ('fs', 's3'):
        reach(P, outs, 'reach.ok-' + kind, lambda st, k, r: st.decide(isnil(st, r[0])) and sets(st)[0][1]['kind'] == kind)
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(Not(isnil(st, r[0]))))


def mainmain(P):
    setup_models(P)
    P.prefix = 'ctsetup.MainMain/'
    st = State(P)
    gc = P.fresh(st, P.tid[GC], 'gc')
    addr, ckey, rfile, kfile = [st.fresh_seq(n) for n in ('consulAddress', 'consulKey', 'rootCerts', 'signingKey')]
    outs = run(P, st, SETUP + 'MainMain', [SymIface(nn(st, 'ctx')), addr, ckey, rfile, kfile, gc])

    def post(st, k, r):
        rs = roots_post(P, st, gc, rfile, 'ensures.')
        ss = sth_post(P, st, gc, kfile, 'ensures.')
        P.oblige(st, 'ensures.no-other-object', len(sets(st)) == len(rs) + len(ss) and len(rs) <= 1 and len(ss) <= 1)
        puts = [c for c in calls(st) if c[0] == 'consul.Put']
        for c in puts:
            P.oblige(st, 'ensures.config', And(seq_eq(st, c[1]['key'], ckey + lit('/config')), seq_eq(
                st, c[1]['value'], ext.jsonval(P, st, CONFSIG, [gcf(P, gc, f) for f in CONFORDER]))))
        if ss:
            i = calls(st).index(ss[0])
            before = calls(st)[:i]
            P.oblige(st, 'ensures.no-head-after-a-failure', all(c[2] == 'ok' for c in before) and len(rs) == 1 and len(puts) == 1
                     and calls(st).index(rs[0]) < i and calls(st).index(puts[0]) < i)
        if k == 'panic':
            P.oblige(st, 'ensures.stops-only-on-failure', 'log.Fatal' in str(r))
        else:
            P.oblige(st, 'ensures.success-only-if-all-stored', len(rs) == 1 and len(ss) == 1 and len(puts) == 1 and not failed(st))
    forall(P, outs, post)
    reach(P, outs, 'reach.done', lambda st, k, r: k != 'panic')
    reach(P, outs, 'reach.fatal', lambda st, k, r: k == 'panic')


UNITS = [('uploadRoots', roots), ('uploadEmptySth', emptysth), ('MainMain', mainmain)]
UNDER = [SETUP + x for x in ('MainMain', 'uploadRoots', 'uploadConfig', 'uploadEmptySth')] + [SL + 'SignTreeHead', SL + 'DigitallySign']
ASSUMPTIONS = ['PEMCertPool.RawCertificates returns the certificates of the appended bundle in order, without repeats of the same certificate',
               'FsStorage.Set / S3Storage.Set and their constructors meet the contracts proved for C17; rfc6979.Sign the one proved for C09']
REPLAY = [{'pkg': 'internal/ctsetup', 'file': 'c20_test.go', 'test': 'TestVerifC20', 'with': ['vh_test.go', 'vhs3_test.go']}]
