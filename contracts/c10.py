"""C10: checkpoints parse back to what was formatted and verify only as signed (sunlight/checkpoint_ol.go)."""
from iomodels import *
from cryptomodels import *
from strmodels import *

CKPT = SL + 'Checkpoint'
TREE = 'golang.org/x/mod/sumdb/tlog.Tree'
NOTE = 'golang.org/x/mod/sumdb/note.'
RSAPUB, ECPUB = '*crypto/rsa.PublicKey', '*crypto/ecdsa.PublicKey'
STD = 'g:encoding/base64.StdEncoding'


def mkckpt(P, origin, n, h, ex):
    d = {'Origin': origin, 'Extension': ex}
    t = P.tid[CKPT]
    fs = P.U(t)['fields']
    return St(t, [mktree(P, f['t'], n, h) if f['n'] == 'Tree' else d[f['n']] for f in fs])


def mktree(P, t, n, h):
    return St(t, [{'N': n, 'Hash': h}[f['n']] for f in P.U(t)['fields']])


def cf(P, c, f):
    if f in ('N', 'Hash'):
        return c.f[fidx(P, CKPT, 'Tree')].f[fidx(P, TREE, f)]
    return c.f[fidx(P, CKPT, f)]


def b64std(P, st, s):
    f = P.funcs[SL + 'FormatCheckpoint']
    enc = std_enc(P, st)
    return ext.b64enc(P, st, [enc, P.constslice(s)], None)[0]


def std_enc(P, st):
    return st.load(Ptr(SymObj(z3.Const(STD, core.U), stdtype(P))))


def stdtype(P):
    return P.tid['*encoding/base64.Encoding']


def ckpt_text(P, st, origin, n, h, ex):
    """c2sp.org/checkpoint"""
    return origin + lit('\n') + ext.decstr(st, n) + lit('\n') + b64std(P, st, h) + lit('\n') + ex


def freshstr(st, name, lines=False):
    """an arbitrary string; without newlines unless lines"""
    s = st.fresh_seq(name)
    a = s.p[0].atom
    st.fact(uf('len', [a], INT) == s.len)
    if not lines:
        st.fact(uf('nlcount', [a], INT) == 0)
    return s


# ------------------------------------------------------------------ FormatCheckpoint, ParseCheckpoint
def check_format(P):
    P.prefix = 'sunlight.FormatCheckpoint/'
    install_strings(P)
    st = State(P)
    c = mkckpt(P, freshstr(st, 'origin', True), st.fresh_int('n', -2 ** 63, 2 ** 63 - 1), st.fresh_seq('hash', 32), freshstr(st, 'ext', True))
    outs = nopanic(P, run(P, st, SL + 'FormatCheckpoint', [c]), 'no-panic')

    def post(st, k, r):
        P.oblige(st, 'ensures.text', seq_eq(st, r[0], ckpt_text(P, st, *[cf(P, c, f) for f in ('Origin', 'N', 'Hash', 'Extension')])))
    forall(P, outs, post)


def wf_inv(C, st, S0):
    """loop invariant: the rest of the text is made of terminated lines iff the whole is"""
    r = []
    for lf in C.leaves:
        if isinstance(lf.hv, Seq) and isinstance(lf.v0, Seq) and len(lf.hv.p) == 1 and isinstance(lf.hv.p[0], Sub) and \
                lf.hv.p[0].ety is None and C.P.isstring(lf_type(C, lf)) and lf.mode == 'havoc':
            wfseq(st, lf.hv)
            a0 = wfseq(S0, lf.v0)
            r.append((('wfext', lf.id), [lf.id], lambda vals, k, lf=lf, a0=a0: eqt(a0, wfterm(vals[lf.id]))))
    return r


def lf_type(C, lf):
    if lf.id[0] == 'phi' and len(lf.id) == 2:
        for b in C.fn.blocks:
            for i in b['instrs']:
                if i.get('r') == lf.id[1] and i['op'] == 'Phi':
                    return i['t']
    return C.P.tid['bool']


def wfterm(s):
    if not isinstance(s, Seq):
        raise Unsupported('text invariant')
    if not s.p:
        return True
    if len(s.p) == 1 and isinstance(s.p[0], Sub):
        return uf('wfext', [s.p[0].atom], BOOL)
    raise Unsupported('text invariant')


def wfseq(st, s):
    if s.p and isinstance(s.p[0], Sub):
        wfext(st, s.p[0].atom)
    return wfterm(s)


def check_parse(P):
    install_strings(P)
    P.intinv = [wf_inv]
    name = SL + 'ParseCheckpoint'
    # every text has fewer than three newlines, or is three newline-terminated lines and an arbitrary rest
    for n in range(3):
        P.prefix = 'sunlight.ParseCheckpoint/%d-newlines/' % n
        st = State(P)
        text = Seq()
        for j in range(n + 1):
            text = text + (lit('\n') if j else Seq()) + freshstr(st, 'l%d' % j)
        outs = nopanic(P, run(P, st, name, [text]), 'no-panic')
        forall(P, outs, lambda st, k, r: P.oblige(st, 'ensures.rejects', Not(isnil(st, r[1]))))
    P.prefix = 'sunlight.ParseCheckpoint/'
    st = State(P)
    l = [freshstr(st, 'l%d' % j) for j in range(3)]
    x = freshstr(st, 'x', True)
    text = l[0] + lit('\n') + l[1] + lit('\n') + l[2] + lit('\n') + x
    outs = nopanic(P, run(P, st, name, [text]), 'no-panic')

    def post(st, k, r):
        if not st.decide(isnil(st, r[1])):
            return
        c = r[0]
        o, n, h, e = [cf(P, c, f) for f in ('Origin', 'N', 'Hash', 'Extension')]
        P.oblige(st, 'ensures.size-not-negative', ge(n, 0))
        P.oblige(st, 'ensures.accepted-text-is-canonical', And(
            seq_eq(st, o, l[0]), seq_eq(st, ext.decstr(st, n), l[1]), seq_eq(st, b64std(P, st, h), l[2]), seq_eq(st, e, x)))
        P.oblige(st, 'ensures.extension-lines', wfseq(st, x))
    forall(P, outs, post)
    reach(P, outs, 'reach.accepted', lambda st, k, r: st.decide(isnil(st, r[1])))
    reach(P, outs, 'reach.rejected', lambda st, k, r: not st.decide(isnil(st, r[1])))
    # what FormatCheckpoint makes is parsed back
    P.prefix = 'lemma.parse-of-format/'
    st = State(P)
    o = freshstr(st, 'origin')
    n = st.fresh_int('n', 0, 2 ** 63 - 1)
    h = st.fresh_seq('hash', 32)
    e = freshstr(st, 'ext', True)
    st.fact(uf('len', [h.p[0].atom], INT) == 32)
    text = ckpt_text(P, st, o, n, h, e)
    st.fact(wfext(st, e.p[0].atom))
    st.fact(tz(le(text.len, 10 ** 6)))
    outs = nopanic(P, run(P, st, name, [text]), 'no-panic')

    def back(st, k, r):
        P.oblige(st, 'accepts', isnil(st, r[1]))
        c = r[0]
        for f, v in (('Origin', o), ('N', n), ('Hash', h), ('Extension', e)):
            P.oblige(st, 'gives-back.' + f, val_eq(st, cf(P, c, f), v))
    forall(P, outs, back)
    P.intinv = []


# ------------------------------------------------------------------ NewRFC6962Verifier
def parse_contract(P):
    """contract of ParseCheckpoint, as proved above: a function of the text"""
    def m(P, st, args, i):
        t = core.reifyst(st, args[0])
        s2 = st.clone()
        ok = uf('ckptok', [t], BOOL)
        st.fact(ok)
        s2.fact(z3.Not(ok))
        o, h, e = [uf('ckpt.' + f, [t], core.U) for f in ('origin', 'hash', 'ext')]
        n = uf('ckpt.n', [t], INT)
        st.fact(z3.And(n >= 0, n < 2 ** 63, uf('len', [h], INT) == 32))
        c = mkckpt(P, aseq(st, o), n, Seq([Sub(h, 0, 32)]), aseq(st, e))
        st.ghost['parsed'] = c
        z = P.zero(s2, i['results'][0])
        return [(st, 'ret', (c, NILIF)), (s2, 'ret', (z, newerr(s2)))]
    P.models[SL + 'ParseCheckpoint'] = m
    P.contracted = getattr(P, 'contracted', set()) | {SL + 'ParseCheckpoint'}


def key_models(P):
    m = P.models

    def pkix(P, st, args, i):
        k = term(args[0])
        s2 = st.clone()
        t = uf('pkix', [k], core.U)
        st.fact(uf('pkixok', [k], BOOL))
        s2.fact(z3.Not(uf('pkixok', [k], BOOL)))
        return [(st, 'ret', (bytesv(P, st, aseq(st, t)), NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), newerr(s2)))]
    m['crypto/x509.MarshalPKIXPublicKey'] = pkix

    def verify_rsa(P, st, args, i):
        """nil iff the signature of the digest verifies"""
        P.oblige(st, 'rsa.VerifyPKCS1v15.requires.sha256', eqt(args[1], 5))
        ok = rsaok(st, term(args[0]), st.content(args[2]), st.content(args[3]))
        if st.decide(ok):
            return (NILIF,)
        return (newerr(st),)
    m['crypto/rsa.VerifyPKCS1v15'] = verify_rsa
    m['crypto/ecdsa.VerifyASN1'] = lambda P, st, a, i: (ecok(st, term(a[0]), st.content(a[1]), st.content(a[2])),)

    def public(P, st, args, i):
        p = args[0]
        return (Iface(ECPUB, Ptr(p.obj, p.path + (fidx(P, ECPRIV, 'PublicKey'),))),)
    m['(*crypto/ecdsa.PrivateKey).Public'] = public


def rsaok(st, k, digest, sig):
    return uf('rsaverify', [k, core.reifyst(st, digest), core.reifyst(st, sig)], BOOL)


def ecok(st, k, digest, sig):
    return uf('ecdsaverify', [k, core.reifyst(st, digest), core.reifyst(st, sig)], BOOL)


def valid_name(st, s):
    return And(gt(s.len, 0), uf('utf8ok', [core.reifyst(st, s)], BOOL), first_space(st, s) < 0,
               Not(contains_char(st, s, ord('+'))))


def key_id(P, st, name, key):
    """c2sp.org/signed-note key ID of an RFC 6962 key"""
    pk = aseq(st, uf('pkix', [term(key)], core.U))
    return Seq(core.split_at(st, ext.sha256(st, name + lit('\n') + lit(b'\5') + ext.sha256(st, pk)), 4)[0].p)


def ser_sth_total(P):
    """SerializeSTHSignatureInput of a version 1 tree head does not fail"""
    def m(P, st, args, i):
        g = lambda f: sthfield(P, st, args[0], f)
        if st.decide(eqt(g('Version'), 0)):
            return (bytesv(P, st, sth_input(g('TreeSize'), g('Timestamp'), g('SHA256RootHash'))), NILIF)
        return (P.zero(st, i['results'][0]), newerr(st))
    P.models[CT + 'SerializeSTHSignatureInput'] = m


def vf(P, v, f):
    return v.f[fidx(P, SL + 'verifier', f)]


def wellformed(st, sig):
    """sig = be64(timestamp) hash-algorithm(sha256) signature-algorithm len16 signature, exactly: (cond, ts, alg, signature)"""
    l = sig.len
    if not st.decide(ge(l, 12)):
        return False, None, None, None
    head, rest = core.split_at(st, sig, 8)
    ts = core.seq_int(st, head, 'be')
    ha, sa, h, lo = [seq_get(st, rest, j) for j in range(4)]
    sl = add(mul(256, h), lo)
    if not st.decide(eqt(l, add(12, sl))):
        return False, None, None, None
    return eqt(ha, 4), ts, sa, core.split_at(st, rest, 4)[1]


def new_verifier_spec(P, st, name, key, tf):
    """runs NewRFC6962Verifier and its contract; returns the accepting outcomes"""
    outs = nopanic(P, run(P, st, SL + 'NewRFC6962Verifier', [name, key, tf]), 'no-panic')
    good = []

    def post(st, k, r):
        ok = st.decide(isnil(st, r[1]))
        want = And(valid_name(st, name), uf('pkixok', [term(key)], BOOL))
        P.oblige(st, 'ensures.accepts-iff-name-and-key-are-good', eqt(tz(ok), tz(want)))
        if not ok:
            return
        v = r[0]
        for meth, chk in (('Name', lambda s, x: seq_eq(s, x, name)),
                          ('KeyHash', lambda s, x: eqt(core.seq_int(s, key_id(P, s, name, key), 'be'), x))):
            for s, kind, x in P.call(st.clone(), ('invoke', meth, v, P.tid[NOTE + 'Verifier']), [], {'results': []}):
                P.oblige(s, 'verifier.%s.ensures' % meth, kind == 'ret' and chk(s, x[0]))
        good.append((st, v))
    forall(P, outs, post)
    return good


def check_verifier(P):
    P.prefix = 'sunlight.NewRFC6962Verifier/'
    install_strings(P)
    parse_contract(P)
    hash_models(P)
    key_models(P)
    ser_sth_total(P)
    for with_tf in (True, False):
        P.prefix = 'sunlight.NewRFC6962Verifier/%s/' % ('callback' if with_tf else 'no-callback')
        st = State(P)
        name = freshstr(st, 'name', True)
        key = SymIface(nn(st, 'key'))
        st.fact(z3.Not(z3.And(uf('typeis:' + RSAPUB, [key.t], BOOL), uf('typeis:' + ECPUB, [key.t], BOOL))))
        msg, sig = P.fresh(st, P.tid['[]byte'], 'msg'), P.fresh(st, P.tid['[]byte'], 'sig')

        def symfn(P, st, cal, args, i):
            st.ghost['tf'] = st.ghost.get('tf', ()) + (tuple(args),)
            return ()
        P.models['symfn'] = symfn
        tf = SymFn(nn(st, 'tf')) if with_tf else None
        good = new_verifier_spec(P, st, name, key, tf)
        if not good:
            P.oblige(st, 'reach.verifier', False, 'no verifier is ever returned')
        outs = []
        for s, v in good:
            for s2, kind, r in P.call(s, ('invoke', 'Verify', v, P.tid[NOTE + 'Verifier']), [msg, sig], {'results': [P.tid['bool']]}):
                outs.append(ex.Outcome(s2, kind, r))
        outs = nopanic(P, outs, 'verify.no-panic')
        accepted = []

        def post(st, k, r):
            acc = st.decide(r[0])
            t = core.reifyst(st, st.content(msg))
            ckok = st.decide(uf('ckptok', [t], BOOL))
            n, h, e = uf('ckpt.n', [t], INT), uf('ckpt.hash', [t], core.U), uf('ckpt.ext', [t], core.U)
            want = False
            ts = None
            if ckok and st.decide(aseq(st, e).len == 0):
                wf, ts, alg, sg = wellformed(st, st.content(sig))
                if wf is not False and st.decide(wf):
                    st.fact(uf('len', [h], INT) == 32)
                    d = ext.sha256(st, sth_input(n, ts, Seq([Sub(h, 0, 32)])))
                    want = z3.Or(
                        tz(And(uf('typeis:' + RSAPUB, [key.t], BOOL), eqt(alg, 1), rsaok(st, dyn(P, st, key, RSAPUB), d, sg))),
                        tz(And(uf('typeis:' + ECPUB, [key.t], BOOL), eqt(alg, 3), ecok(st, dyn(P, st, key, ECPUB), d, sg))))
            if acc:
                P.oblige(st, 'verify.ensures.accepts-only-a-valid-signature-of-the-tree-head', want)
            else:
                P.oblige(st, 'verify.ensures.accepts-every-valid-signature', Not(want))
            calls_ = st.ghost.get('tf', ())
            if acc and with_tf:
                P.oblige(st, 'verify.ensures.timestamp-reported', len(calls_) == 1 and ts is not None and eqt(calls_[0][0], ts))
            else:
                P.oblige(st, 'verify.ensures.no-timestamp-of-a-rejected-signature', len(calls_) == 0)
            return acc
        forall(P, outs, post)
        for ty in (RSAPUB, ECPUB):
            reach(P, outs, 'reach.accepted.' + ty, lambda st, k, r: st.decide(r[0]) and st.decide(uf('typeis:' + ty, [key.t], BOOL)))


def dyn(P, st, key, ty):
    return term(P.mk(st, P.tid[ty], 'dyn:' + ty, [key.t]))


# ------------------------------------------------------------------ SignTreeHeadCheckpoint
def note_sign(P, st, args, i):
    """assumed contract of note.Sign with one signer: text, blank line, "— name base64(keyhash signature)", or an error"""
    n = st.load(args[0])
    g = lambda f: n.f[fidx(P, NOTE + 'Note', f)]
    text = g('Text')
    sgs = st.content(args[1])
    if not (len(sgs.p) == 1 and isinstance(sgs.p[0], Lit) and len(sgs.p[0].v) == 1):
        raise Unsupported('note.Sign with other than one signer')
    for f in ('Sigs', 'UnverifiedSigs'):
        P.oblige(st, 'note.Sign.requires.no-other-signatures', eqt(st.content(g(f)).len, 0))
    signer = sgs.p[0].v[0]
    rt = P.tid[NOTE + 'Signer']
    outs = []
    inv = lambda s, meth, a, ts: P.call(s, ('invoke', meth, signer, rt), a, {'results': [P.tid[x] for x in ts]})
    bad = lambda s: (s, 'ret', (P.zero(s, i['results'][0]), newerr(s)))
    for s, good in P.split(st, tz(ends_nl(st, text))):
        if not good:
            outs.append(bad(s))
            continue
        for s1, k1, nm in inv(s, 'Name', [], ['string']):
            for s2, k2, hs in inv(s1, 'KeyHash', [], ['uint32']):
                for s3, good in P.split(s2, tz(valid_name(s2, nm[0]))):
                    if not good:
                        outs.append(bad(s3))
                        continue
                    for s4, k4, sg in inv(s3, 'Sign', [bytesv(P, s3, text)], ['[]byte', 'error']):
                        if 'panic' in (k1, k2, k4):
                            outs.append((s4, 'panic', 'signer'))
                            continue
                        for s5, good in P.split(s4, isnil(s4, sg[1])):
                            if not good:
                                outs.append((s5, 'ret', (P.zero(s5, i['results'][0]), sg[1])))
                                continue
                            rec(s5, 'note.Sign', 'ok', text=text, name=nm[0], hash=hs[0], sig=s5.content(sg[0]))
                            outs.append((s5, 'ret', (bytesv(P, s5, note_text(P, s5, text, nm[0], be(4, hs[0]), s5.content(sg[0]))), NILIF)))
    return outs


def note_text(P, st, text, name, hash4, sig):
    return text + lit('\n\u2014 ') + name + lit(' ') + b64std(P, st, hash4 + sig) + lit('\n')


def check_sign(P):
    P.prefix = 'sunlight.SignTreeHeadCheckpoint/'
    install_strings(P)
    install_crypto(P)
    parse_contract(P)
    hash_models(P)
    key_models(P)
    ser_sth_total(P)
    P.models[NOTE + 'Sign'] = note_sign

    def inputs():
        st = State(P)
        return st, freshstr(st, 'origin'), Ptr(SymObj(nn(st, 'key'), P.tid[ECPRIV])), st.fresh_int('n', 0, 2 ** 63 - 1), \
            st.fresh_int('ts', 0, 2 ** 63 - 1), st.fresh_seq('root', 32)
    st, origin, key, n, ts, h = inputs()
    outs = nopanic(P, run(P, st, SL + 'SignTreeHeadCheckpoint', [origin, key, n, ts, h]), 'no-panic')
    pub = Iface(ECPUB, Ptr(key.obj, (fidx(P, ECPRIV, 'PublicKey'),)))

    def post(st, k, r):
        if not st.decide(isnil(st, r[1])):
            return False
        text = ckpt_text(P, st, origin, n, h, Seq())
        sig = be(8, ts) + signed(st, term(key), sth_input(n, ts, h))
        want = note_text(P, st, text, origin, be(4, core.seq_int(st, key_id(P, st, origin, pub), 'be')), sig)
        P.oblige(st, 'ensures.signed-note-of-the-tree-head', seq_eq(st, st.content(r[0]), want))
        return True
    forall(P, outs, post)
    reach(P, outs, 'reach.signed', post)
    # and its signature verifies: ECDSA signatures verify under their key (assumed of crypto/ecdsa)
    P.prefix = 'lemma.signed-checkpoint-verifies/'
    st, origin, key, n, ts, h = inputs()
    text = ckpt_text(P, st, origin, n, h, Seq())
    st.fact(uf('ckptok', [core.reifyst(st, text)], BOOL))   # lemma.parse-of-format
    t = core.reifyst(st, text)
    st.fact(uf('ckpt.n', [t], INT) == n)
    st.fact(uf('ckpt.ext', [t], core.U) == core.EMPTY)
    st.fact(uf('len', [core.EMPTY], INT) == 0)
    st.fact(uf('ckpt.hash', [t], core.U) == h.p[0].atom)
    st.fact(uf('len', [h.p[0].atom], INT) == 32)
    pub = Iface(ECPUB, Ptr(key.obj, (fidx(P, ECPRIV, 'PublicKey'),)))
    sg = signed(st, term(key), sth_input(n, ts, h))
    d = ext.sha256(st, sth_input(n, ts, h))
    st.fact(ecok(st, term(pub.v), d, ecdsasig(st, term(key), d)))
    for s, v in new_verifier_spec(P, st, origin, pub, None):
        for s2, kind, r in P.call(s, ('invoke', 'Verify', v, P.tid[NOTE + 'Verifier']),
                                  [bytesv(P, s, text), bytesv(P, s, be(8, ts) + sg)], {'results': [P.tid['bool']]}):
            P.oblige(s2, 'accepted', kind == 'ret' and r[0])


UNITS = [('FormatCheckpoint', check_format), ('ParseCheckpoint', check_parse), ('NewRFC6962Verifier', check_verifier),
         ('SignTreeHeadCheckpoint', check_sign)]
UNDER = [SL + 'FormatCheckpoint', SL + 'ParseCheckpoint', SL + 'NewRFC6962Verifier', SL + 'NewRFC6962Verifier$1', SL + 'isValidName', SL + 'keyHash',
         SL + 'SignTreeHeadCheckpoint', SL + 'DigitallySign', '(*%sverifier).{Name,KeyHash,Verify}' % SL, '(*%sinjectedSigner).{Name,KeyHash,Sign}' % SL]
ASSUMPTIONS = ['strings.{Count,SplitN,Cut,HasSuffix,Contains,IndexFunc}, utf8.ValidString, strconv.{ParseInt,FormatInt} and base64 behave as documented (contracts/strmodels.py, engine/ext.py)',
               'ct.SerializeSTHSignatureInput writes the RFC 6962 section 3.5 structure and does not fail on version 1 tree heads',
               'note.Sign with one signer writes the text, a blank line and the signature line, as documented',
               'an ECDSA signature made with a key verifies under that key (crypto/ecdsa); crypto/rsa and crypto/ecdsa verification are functions of key, digest and signature',
               'the round trip is claimed for texts up to the documented 1e6 bytes and origins without a newline']
REPLAY = [{'pkg': 'internal/sunlight', 'file': 'c10_test.go', 'test': 'TestVerifC10', 'with': ['vh_test.go']}]
