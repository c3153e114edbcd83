"""The admission stage: contract of stageZero and its wrapper, shared by C02, C08, C15 and C18.

stageZero decodes the body, validates the chain, builds the leaf, looks the certificate up in the deduplication objects,
hands a new one to the sequencer with its own answer slot, and signs what the slot delivers."""
from iomodels import *
from cryptomodels import *
from monitor import answered
from leaf import *
import core

SZ = CS + 'stageZeroData'
CTFE = 'github.com/google/certificate-transparency-go/trillian/ctfe.'
X509 = 'github.com/google/certificate-transparency-go/x509.'
CERT = X509 + 'Certificate'
UNSEQ = SL + 'UnsequencedEntry'
UWRP = CS + 'UnsequencedEntryWithReturnPath'
ACR = CT + 'AddChainResponse'
SECOND = 10 ** 9
BODYMAX = 2 ** 24 - 1
OPAQUE_OPTS = CTFE + 'CertValidationOpts'


def pos(st, cond):
    return st.decide(cond)


def certfield(P, st, c, f):
    return st.load(Ptr(c.obj, tuple(c.path) + (fidx(P, CERT, f),)))


def limited(st, s):
    """a byte string that came with the body"""
    st.fact(tz(le(s.len, BODYMAX)))
    return s


def admission_models(P, S):
    """S: dict filled with the symbols of the run"""
    m = P.models
    install_crypto(P)
    P.nonnil.add('*' + CERT)
    P.opaque_types.add(OPAQUE_OPTS)

    def readall(P, st, args, i):
        s2 = st.clone()
        a = uf('body', [term(args[0])], core.U)
        l = uf('len', [a], INT)
        st.fact(z3.And(l >= 0, l <= BODYMAX))
        c = Seq([Sub(a, 0, l)])
        rec(st, 'ReadAll', 'ok', content=c, r=args[0])
        e = newerr(s2)
        rec(s2, 'ReadAll', e)
        return [(st, 'ret', (bytesv(P, st, c), NILIF)), (s2, 'ret', (bytesv(P, s2, s2.fresh_seq('partial')), e))]
    m['io.ReadAll'] = readall

    def unmarshal(P, st, args, i):
        bt = core.reifyst(st, ext.seqof(st, args[0]))
        outs = ext.json_unmarshal(P, st, args, i)
        st1 = outs[0][0]
        rec(st1, 'Unmarshal', 'ok', text=bt)
        rec(outs[1][0], 'Unmarshal', outs[1][2][0], text=bt)
        return outs
    m['encoding/json.Unmarshal'] = unmarshal

    def newopts(P, st, args, i):
        v = Opaque(st.fresh_u('opts'), i['results'][0])
        names = ('trustedRoots', 'currentTime', 'rejectExpired', 'rejectUnexpired', 'notAfterStart', 'notAfterLimit', 'acceptOnlyCA', 'extKeyUsages')
        kw = dict(zip(names, args))
        for f in ('notAfterStart', 'notAfterLimit'):
            kw[f] = st.load(kw[f]) if isinstance(kw[f], Ptr) else kw[f]
        rec(st, 'NewCertValidationOpts', 'ok', opts=v, **kw)
        return (v,)
    m[CTFE + 'NewCertValidationOpts'] = newopts

    def validate(P, st, args, i):
        """the validated chain, leaf first, ending in an accepted root; or an error"""
        s2 = st.clone()
        a = st.fresh_u('chain')
        n = uf('len', [a], INT)
        st.fact(z3.And(n >= 1, n < 2048))
        t = i['results'][0]
        v = SliceV(Ptr(SymObj(a, -1 - P.U(t)['elem'])), 0, n, n, False)
        ch = st.content(v)
        for f in ('Raw', 'RawTBSCertificate'):
            # the leaf certificate came with the body
            st.fact(tz(le(st.content(certfield(P, st, seq_get(st, ch, 0), f)).len, BODYMAX)))
        rec(st, 'ValidateChain', 'ok', raw=args[0], opts=args[1], chain=ch)
        e = newerr(s2)
        rec(s2, 'ValidateChain', e, raw=args[0], opts=args[1])
        return [(st, 'ret', (v, NILIF)), (s2, 'ret', (P.zero(s2, t), e))]
    m[CTFE + 'ValidateChain'] = validate

    def isprecert(P, st, args, i):
        s2 = st.clone()
        r = uf('isprecert', [term(args[0])], BOOL)
        rec(st, 'IsPrecertificate', 'ok', cert=args[0])
        e = newerr(s2)
        rec(s2, 'IsPrecertificate', e, cert=args[0])
        return [(st, 'ret', (r, NILIF)), (s2, 'ret', (False, e))]
    m[CTFE + 'IsPrecertificate'] = isprecert
    m[CT + 'IsPreIssuer'] = lambda P, st, args, i: (uf('ispreissuer', [term(args[0])], BOOL),)

    def tbs(P, st, args, i):
        """the TBS with the poison removed, and the names and key ids of the final issuer when there is a precertificate-signing one"""
        s2 = st.clone()
        v = tbs_of(st, st.content(args[0]), args[1])
        rec(st, 'BuildPrecertTBS', 'ok', tbs=args[0], pre=args[1])
        e = newerr(s2)
        rec(s2, 'BuildPrecertTBS', e)
        return [(st, 'ret', (bytesv(P, st, v), NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), e))]
    m[X509 + 'BuildPrecertTBS'] = tbs

    def getdedupe(P, st, args, i):
        """contract of GetDedupeEntry (C08)"""
        s2 = st.clone()
        v = P.fresh(st, i['results'][0], 'dedupe')
        ix = v.f[fidx(P, CS + 'DedupeUpload', 'leafIndex')]
        st.fact(tz(And(ge(ix, 0), lt(ix, 2 ** 40))))
        b = args[0]
        rec(st, 'GetDedupeEntry', 'ok', bucket=term(st.load(Ptr(b.obj, tuple(b.path) + (0,)))), hash=args[2], mask=args[3], val=v)
        e = newerr(s2)
        rec(s2, 'GetDedupeEntry', e, bucket=term(s2.load(Ptr(b.obj, tuple(b.path) + (0,)))), hash=args[2], mask=args[3])
        return [(st, 'ret', (v, NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), e))]
    m['(*%sBucket).GetDedupeEntry' % CS] = getdedupe

    def after(P, st, args, i):
        ch = ChanV(st.fresh_u('timer'), P.U(i['results'][0])['elem'], 1)
        rec(st, 'After', 'ok', d=args[0], ch=ch)
        return (ch,)
    m['time.After'] = after

    def newtimer(P, st, args, i):
        ch = after(P, st, args, {'results': [P.U(P.tid['time.Timer'])['fields'][fidx(P, 'time.Timer', 'C')]['t']]})[0]
        z = P.zero(st, P.tid['time.Timer'])
        f = list(z.f)
        f[fidx(P, 'time.Timer', 'C')] = ch
        return (Ptr(st.alloc(St(z.ty, f), P.tid['time.Timer'])),)
    m['time.NewTimer'] = newtimer
    m['(*time.Timer).Stop'] = lambda P, st, args, i: (st.fresh_bool('stopped'),)

    def withtimeout(P, st, args, i):
        c = SymIface(nn(st, 'timedctx'), P.tid['context.Context'])
        rec(st, 'After', 'ok', d=args[1], ch=ChanV(uf('ctxdone', [c.t], core.U), None, 1))
        return (c, core.Clo('verif.cancel'))
    m['verif.cancel'] = lambda P, st, args, i: ()
    m['context.WithTimeout'] = withtimeout
    P.imodels[('context.Context', 'Done')] = lambda P, st, args, i: (ChanV(uf('ctxdone', [term(args[0])], core.U), P.U(i['results'][0])['elem']),)
    P.imodels[('context.Context', 'Err')] = lambda P, st, args, i: (newerr(st),)

    def send(P, st, ch, x, i):
        rec(st, 'Send', 'ok', ch=ch, v=x, sel=P.sel)
    P.send_hook = send

    def recv(P, st, ch, i):
        for c in calls(st):
            if c[0] == 'After' and c[1]['ch'].t.eq(ch.t):
                rec(st, 'Timeout', 'ok', ch=ch, sel=P.sel)
                return [(st, P.fresh(st, ch.elem, 'tick'), True)]
        snt = [c for c in calls(st) if c[0] == 'Send']
        if len(snt) == 1 and isinstance(snt[0][1]['v'], St):
            en = snt[0][1]['v'].f[fidx(P, UWRP, 'entry')]
            rp = snt[0][1]['v'].f[fidx(P, UWRP, 'returnPath')]
            if isinstance(rp, ChanV) and rp.t.eq(ch.t):
                # contract of the sequencer (C02, C03): the slot delivers this entry with the index and time it was stored with
                ix, ts = st.fresh_int('seqindex', 0, 2 ** 40 - 1), st.fresh_int('seqtime', 0, 2 ** 63 - 1)
                v = sequenced(P, st, en, ix, ts)
                rec(st, 'Answer', 'ok', v=v, ix=ix, ts=ts, sel=P.sel)
                return [(st, v, True)]
        gone = 'ctx' in S and ch.t.eq(uf('ctxdone', [term(S['ctx'])], core.U))
        rec(st, 'ClientGone' if gone else 'ForeignRecv', 'ok', ch=ch, sel=P.sel)
        return [(st, P.fresh(st, ch.elem, 'recv'), True)]
    P.recv_hook = recv

    def marshal(P, st, args, i):
        s2 = st.clone()
        t = st.fresh_u('json')
        l = uf('len', [t], INT)
        st.fact(z3.And(l >= 0, l < 2 ** 40))
        rec(st, 'json.Marshal', 'ok', v=args[0], text=t)
        e = newerr(s2)
        rec(s2, 'json.Marshal', e, v=args[0])
        return [(st, 'ret', (bytesv(P, st, Seq([Sub(t, 0, l)])), NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), e))]
    m['encoding/json.Marshal'] = marshal


def tbs_of(st, raw, pre):
    a = uf('precerttbs', [core.reifyst(st, raw), term(pre) if pre is not None else NIL], core.U)
    l = uf('len', [a], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 24))
    return Seq([Sub(a, 0, l)])


def sequenced(P, st, en, ix, ts):
    fs = []
    for f in P.U(P.tid[ENTRY])['fields']:
        n = f['n']
        fs.append(ix if n == 'LeafIndex' else ts if n == 'Timestamp' else en.f[fidx(P, UNSEQ, n)])
    return St(P.tid[ENTRY], tuple(fs))


def one(st, op):
    """the outcome record of the single successful call"""
    cs = [c for c in calls(st) if c[0] == op and c[2] == 'ok']
    return cs[0][1] if len(cs) == 1 else None


def optr(x):
    return term(x) if x is not None else NIL


def expected(P, st, S):
    """the entry the validated chain stands for (spec side): dict, forking on the kind"""
    v = one(st, 'ValidateChain')
    ch = v['chain']
    g = lambda k, f: certfield(P, st, seq_get(st, ch, k), f)
    raw = lambda k, f='Raw': st.content(g(k, f))
    e = dict(chain=ch, fp=ext.sha256(st, raw(0)))
    isp = uf('isprecert', [term(seq_get(st, ch, 0))], BOOL)
    if st.decide(isp):
        e['isp'] = True
        e['pre'] = raw(0)
        if st.decide(lt(ch.len, 2)):
            return None
        is2 = st.decide(uf('ispreissuer', [term(seq_get(st, ch, 1))], BOOL))
        if is2 and st.decide(lt(ch.len, 3)):
            return None
        e['cert'] = tbs_of(st, raw(0, 'RawTBSCertificate'), seq_get(st, ch, 1) if is2 else None)
        e['ikh'] = ext.sha256(st, raw(2 if is2 else 1, 'RawSubjectPublicKeyInfo'))
    else:
        e['isp'], e['pre'], e['cert'], e['ikh'] = False, Seq(), raw(0), None
    return e


def same_entry(P, st, en, e, j, name='ensures.leaf.'):
    """en (UnsequencedEntry value) is the expected entry; j: arbitrary position in the chain"""
    g = lambda f: en.f[fidx(P, UNSEQ, f)]
    P.oblige(st, name + 'kind', eqt(g('IsPrecert'), e['isp']))
    P.oblige(st, name + 'certificate', seq_eq(st, st.content(g('Certificate')), e['cert']))
    if e['isp']:
        P.oblige(st, name + 'precertificate', seq_eq(st, st.content(g('PreCertificate')), e['pre']))
        P.oblige(st, name + 'issuer-key-hash', seq_eq(st, g('IssuerKeyHash'), e['ikh']))
    P.oblige(st, name + 'fingerprint', seq_eq(st, g('CertificateFp'), e['fp']))
    c, fps = st.content(g('Chain')), st.content(g('ChainFp'))
    n = sub(e['chain'].len, 1)
    P.oblige(st, name + 'chain-length', And(eqt(c.len, n), eqt(fps.len, n)))
    s = st.clone()
    s.fact(tz(And(ge(j, 0), lt(j, n))))
    if s.feasible():
        cert = seq_get(s, e['chain'], add(j, 1))
        P.oblige(s, name + 'chain-in-validated-order', term(seq_get(s, c, j)) == term(cert))
        P.oblige(s, name + 'chain-fingerprints', seq_eq(s, seq_get(s, fps, j), ext.sha256(s, s.content(certfield(P, s, cert, 'Raw')))))


def stagezero(post, prefix='stageZero/'):
    """run stageZero on an arbitrary request; post(P, st, S, outcome) for every returning path with outcome 'sct' | 'error'"""
    def check(P):
        P.prefix = prefix
        S = {}
        admission_models(P, S)
        st = State(P)
        d = Ptr(SymObj(nn(st, 'd'), P.tid[SZ]))
        ld = lambda f: st.load(Ptr(d.obj, (fidx(P, SZ, f),)))
        S.update(ctx=SymIface(nn(st, 'ctx')), d=d, body=SymIface(nn(st, 'body')), pre=st.fresh_bool('precertEndpoint'), j=st.fresh_int('j'),
                 f={f: ld(f) for f in ('stageOneTx', 'roots', 'notAfterStart', 'notAfterLimit', 'logID', 'bucket', 'maskSize', 'signingKey')})
        st.fact(tz(And(ge(S['f']['maskSize'], 0), le(S['f']['maskSize'], 32))))
        st.fact(term(S['f']['signingKey']) != NIL)
        outs = nopanic(P, run(P, st, '(*%s).stageZero' % SZ, [d, S['ctx'], S['body'], S['pre']]), 'no-panic')

        def post_(st, k, r):
            resp, code, err = r
            if st.decide(isnil(st, err)):
                P.oblige(st, 'ensures.answer-status', eqt(code, 200))
                post(P, st, S, 'sct', resp, code)
                return 'sct'
            P.oblige(st, 'ensures.error-status', And(ge(code, 400), lt(code, 600)))
            P.oblige(st, 'ensures.error-has-no-sct', eqt(st.content(resp).len, 0))
            post(P, st, S, 'error', resp, code)
            return 'error'
        got = []

        def collect(st, k, r):
            x = post_(st, k, r)
            got.append((x, tuple((c[0], c[2] == 'ok') for c in calls(st))))
            return x
        forall(P, outs, collect)
        return got
    return check


def reached(P, got, name, pred):
    ok = any(pred(x, [c[0] for c in tr], tr) for x, tr in got)
    P.obls.setdefault(P.prefix + name, {'name': P.prefix + name, 'paths': 1, 'time': 0.0, 'reach': True, 'failed': [] if ok else [
        {'msg': 'no execution reaches this outcome', 'status': 'unreachable', 'trace': [], 'cond': '', 'model': ''}]})


def sct_value(P, st, resp):
    ty, v = answered(P, st, resp)
    P.oblige(st, 'ensures.sct-object', ty == ACR)
    return v


def sct_fields(P, st, S, v, ix, ts, e, name='ensures.sct.'):
    """the SCT of this log, for this index and time, over this entry"""
    g = lambda f: v.f[fidx(P, ACR, f)]
    P.oblige(st, name + 'version-1', eqt(g('SCTVersion'), 0))
    P.oblige(st, name + 'timestamp', eqt(g('Timestamp'), u64st(st, ts)))
    P.oblige(st, name + 'log-id', seq_eq(st, st.content(g('ID')), S['f']['logID']))
    x = ext_bytes(ix)
    P.oblige(st, name + 'leaf-index', is_b64std(P, st, g('Extensions'), x))
    f = dict(cert=e['cert'], pre=e['pre'], isp=e['isp'], ikh=e['ikh'], ts=ts, idx=ix)
    P.oblige(st, name + 'signed-leaf', is_signed(st, st.content(g('Signature')), term(S['f']['signingKey']), merkle_leaf(st, f)))


def is_b64std(P, st, c, x):
    """sufficient: the string is the standard base64 encoding of bytes equal to x"""
    enc = term(P.symload(st, SymObj(z3.Const('g:encoding/base64.StdEncoding', core.U), P.tid['*encoding/base64.Encoding']), ()))
    if len(c.p) != 1 or not isinstance(c.p[0], Sub) or eqt(c.p[0].off, 0) is not True or not st.entails(eqt(c.p[0].len, uf('len', [c.p[0].atom], INT))):
        return False
    pre = P.b64_pre.get(c.p[0].atom.get_id())
    return False if pre is None else And(pre[1] == enc, seq_eq(st, pre[2], x))


def requested(P, st, S, name='ensures.lookup.'):
    """the single deduplication lookup of this request: of the certificate's own fingerprint"""
    ds = [c for c in calls(st) if c[0] == 'GetDedupeEntry']
    P.oblige(st, name + 'once', len(ds) == 1)
    if len(ds) != 1:
        return None
    ops = [c[0] for c in calls(st)]
    if 'Send' in ops:
        P.oblige(st, name + 'before-sequencing', ops.index('GetDedupeEntry') < ops.index('Send'))
    d = ds[0][1]
    ch = one(st, 'ValidateChain')['chain']
    fp = ext.sha256(st, st.content(certfield(P, st, seq_get(st, ch, 0), 'Raw')))
    P.oblige(st, name + 'own-fingerprint', seq_eq(st, d['hash'], core.split_at(st, fp, 16)[0]))
    P.oblige(st, name + 'own-objects', And(eqt(d['mask'], S['f']['maskSize']), d['bucket'] == term(S['f']['bucket'].f[0])))
    return ds[0]


# ------------------------------------------------------------------ the HTTP side
RW = 'net/http.ResponseWriter'


def http_events(P):
    def event(op):
        def f(P, st, args, i):
            rec(st, op, 'ok', a=[st.content(x) if isinstance(x, (SliceV, Seq)) else x for x in args], w=args[0])
            return tuple(P.fresh(st, t, 'r') for t in i['results'])
        return f
    P.models['net/http.Error'] = event('Error')
    P.imodels[(RW, 'WriteHeader')] = event('WriteHeader')
    P.imodels[(RW, 'Write')] = event('Write')
    P.models['(net/http.Header).Set'] = event('HeaderSet')


def wrapper_unit(P):
    """the status and body of stageZero reach the client"""
    P.prefix = 'stageZeroWrapper/'
    http_events(P)
    st = State(P)
    d = Ptr(SymObj(nn(st, 'd'), P.tid[SZ]))
    w = SymIface(nn(st, 'w'), P.tid[RW])
    r = Ptr(SymObj(nn(st, 'rq'), P.tid['net/http.Request']))
    pre = st.fresh_bool('precertEndpoint')
    hd = P.fresh(st, P.tid['net/http.Header'], 'hdr')
    P.imodels[(RW, 'Header')] = lambda P, st, args, i: (hd,)
    body = st.load(Ptr(r.obj, (fidx(P, 'net/http.Request', 'Body'),)))
    resp = st.fresh_seq('resp')
    bad = st.fresh_int('code', 400, 599)

    def sz(P, st, args, i):
        """contract of stageZero (C15): 200 and an answer, or an error status and an error"""
        rec(st, 'stageZero', 'ok', d=args[0], body=args[2], pre=args[3])
        s2 = st.clone()
        e = newerr(s2)
        s2.ghost['bad'] = True
        return [(st, 'ret', (bytesv(P, st, resp), 200, NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), bad, e))]
    P.models['(*%s).stageZero' % SZ] = sz
    outs = nopanic(P, run(P, st, '(*%s).stageZeroWrapper' % SZ, [d, w, r, pre]), 'no-panic')

    def post(st, k, _):
        cs = [c[1] for c in calls(st) if c[0] == 'stageZero']
        P.oblige(st, 'ensures.handled-once', len(cs) == 1)
        if len(cs) != 1:
            return False
        P.oblige(st, 'ensures.this-request', And(eqt(term(cs[0]['d']), term(d)), term(cs[0]['body']) == term(body), eqt(cs[0]['pre'], pre)))
        ev = [c for c in calls(st) if c[0] in ('Error', 'WriteHeader', 'Write')]
        P.oblige(st, 'ensures.writes-to-the-client', all(term(c[1]['w']).eq(term(w)) for c in ev))
        if not st.ghost.get('bad'):
            P.oblige(st, 'ensures.answer', [c[0] for c in ev] in (['WriteHeader', 'Write'], ['Write']))
            if ev[0][0] == 'WriteHeader':
                P.oblige(st, 'ensures.status-200', eqt(ev[0][1]['a'][1], 200))
            P.oblige(st, 'ensures.sct-reaches-the-client', seq_eq(st, ev[-1][1]['a'][1], resp))
            return 'sct'
        P.oblige(st, 'ensures.error', [c[0] for c in ev] == ['Error'])
        if [c[0] for c in ev] == ['Error']:
            P.oblige(st, 'ensures.error-status-reaches-the-client', eqt(ev[0][1]['a'][2], bad))
        return 'error'
    forall(P, outs, post)
    reach(P, outs, 'reach.answer', lambda s, k, r: post(s, k, r) == 'sct')
    reach(P, outs, 'reach.error', lambda s, k, r: post(s, k, r) == 'error')


def endpoint_unit(P):
    """the handlers Start installs: each path is served by stage zero with its own kind, bodies are limited;
    one sequencer of each stage runs, and releases the lock when it stops"""
    P.prefix = 'Start/'
    m = P.models
    LOG = CS + 'Log'
    st = State(P)
    P.nonnil.add('*github.com/hashicorp/consul/api.Lock')

    def handle(P, st, args, i):
        rec(st, 'Handle', 'ok', pattern=args[1], h=args[2], mux=args[0])
        return ()
    m['(*net/http.ServeMux).Handle'] = handle
    m['(*net/http.ServeMux).HandleFunc'] = handle
    m['net/http.NewServeMux'] = lambda P, st, args, i: (Ptr(SymObj(nn(st, 'mux'), P.tid['net/http.ServeMux'])),)
    m['go.opentelemetry.io/contrib/instrumentation/net/http/otelhttp.NewHandler'] = lambda P, st, args, i: (args[0],)

    def maxb(P, st, args, i):
        o = SymIface(nn(st, 'limited'), P.tid['net/http.Handler'])
        rec(st, 'MaxBytes', 'ok', h=args[0], n=args[1], limited=o)
        return (o,)
    m['net/http.MaxBytesHandler'] = maxb
    gos = []
    P.go_hook = lambda P, st, cal, args, i=None: gos.append((cal, args))

    def stage(n):
        def f(P, st, args, i):
            rec(st, n, 'ok', d=args[0])
            return (newerr(st),)
        return f
    m['(*%sstageOneData).stageOne' % CS] = stage('stageOne')
    m['(*%sstageTwoData).stageTwo' % CS] = stage('stageTwo')

    def unlock(P, st, args, i):
        rec(st, 'Unlock', 'ok', lock=args[0])
        return (P.fresh(st, i['results'][0], 'unlockerr'),)
    m['(*github.com/hashicorp/consul/api.Lock).Unlock'] = unlock
    wrapped = lambda P, st, args, i: (rec(st, 'wrapper', 'ok', d=args[0], w=args[1], r=args[2], pre=args[3]), ())[1]
    m['(*%s).stageZeroWrapper' % SZ] = wrapped
    l = Ptr(SymObj(nn(st, 'l'), P.tid[LOG]))
    part = lambda st, f: st.load(Ptr(l.obj, (fidx(P, LOG, f),)))
    outs = nopanic(P, run(P, st, '(*%s).Start' % LOG, [l, SymIface(nn(st, 'ctx'))]), 'no-panic')

    def post(st, k, r):
        h, err = r
        P.oblige(st, 'ensures.started', isnil(st, err))
        cs = calls(st)
        mb = [c[1] for c in cs if c[0] == 'MaxBytes']
        hs = {}
        for c in cs:
            if c[0] == 'Handle':
                p = c[1]['pattern'].concrete()
                hs[bytes(p).decode() if p is not None else None] = c[1]
        mux = [c[1]['mux'] for c in cs if c[0] == 'Handle']
        P.oblige(st, 'ensures.limited-bodies', len(mb) == 1 and And(term(h) == term(mb[0]['limited']), *[term(mb[0]['h'].v if isinstance(mb[0]['h'], Iface) else mb[0]['h']) == term(x) for x in mux]))
        P.oblige(st, 'ensures.limit', And(gt(mb[0]['n'], 0), le(mb[0]['n'], BODYMAX)))
        P.oblige(st, 'ensures.endpoints', set(hs) == {'POST /ct/v1/add-chain', 'POST /ct/v1/add-pre-chain'})
        for path, pre in (('POST /ct/v1/add-chain', False), ('POST /ct/v1/add-pre-chain', True)):
            if path not in hs:
                continue
            hv = hs[path]['h']
            fn = hv.v if isinstance(hv, Iface) else hv
            s0 = st.clone()
            w, rq = SymIface(nn(s0, 'w'), P.tid[RW]), Ptr(SymObj(nn(s0, 'rq'), P.tid['net/http.Request']))
            for o in P.call(s0, fn, [w, rq], {'results': []}):
                ws = [c[1] for c in calls(o[0]) if c[0] == 'wrapper']
                P.oblige(o[0], 'ensures.endpoint-kind', o[1] == 'ret' and len(ws) == 1 and ws[0]['pre'] is pre and
                         term(ws[0]['w']).eq(term(w)) and term(ws[0]['r']).eq(term(rq)))
        stages = []
        for cal, args in gos:
            for o in P.call(st.clone(), cal, args, {'results': []}):
                x = [c for c in calls(o[0]) if c[0] in ('stageOne', 'stageTwo', 'Unlock')]
                ns = [c[0] for c in x]
                stages.append(ns[0] if ns else None)
                P.oblige(o[0], 'ensures.lock-released-when-a-stage-stops', len(ns) >= 1 and (o[1] == 'panic' or len(ns) == 2 and ns[1] == 'Unlock' and term(x[1][1]['lock']).eq(term(part(o[0], 'eStop')))))
        P.oblige(st, 'ensures.one-sequencer-of-each-stage', sorted(map(str, stages)) == ['stageOne', 'stageTwo'])
        return True
    forall(P, outs, post)
    reach(P, outs, 'reach', lambda s, k, r: True)
