"""C17: storage adapters."""
from iomodels import *

CTX = None


def ctxv(st):
    return SymIface(nn(st, 'ctx'))


def keyv(st):
    return st.fresh_seq('key')


def symptr(P, st, tname, name):
    return Ptr(SymObj(st.fresh_u('nn:' + name), P.tid[tname]))


def same(st, a, b):
    if a is None or b is None:
        return a is b
    return seq_eq(st, a, b)


def nonnil_sl(st, P, sl, c):
    return seq_eq(st, st.content(sl), c)


GET_PLAIN = ('Range', 'PartNumber', 'VersionId', 'IfMatch', 'IfNoneMatch', 'IfModifiedSince', 'IfUnmodifiedSince')


def unset(v):
    if v is None or (isinstance(v, Seq) and not v.p):
        return True
    if isinstance(v, SliceV):
        return v.base is None
    if isinstance(v, Iface):
        return v.ty is None
    return v is False


def s3_pre(P, st):
    b = symptr(P, st, CS + 'S3Storage', 'b')
    bucket = fieldval(P, st, b, CS + 'S3Storage', 'bucket')
    return b, bucket


def is_err(st, e):
    return Not(isnil(st, e))


def s3_get(P):
    P.prefix = 'ctsubmit.S3Storage.Get/'
    st = State(P)
    b, bucket = s3_pre(P, st)
    key, ctx = keyv(st), ctxv(st)
    outs = nopanic(P, run(P, st, '(*%sS3Storage).Get' % CS, [b, ctx, key]), 'no-panic')

    def post(st, k, r):
        data, err = r
        cs = calls(st)
        gets = [c for c in cs if c[0] == 'GetObject']
        P.oblige(st, 'ensures.one-get-of-the-named-object', len(gets) == 1 and And(
            same(st, gets[0][1]['Bucket'], bucket), same(st, gets[0][1]['Key'], key),
            all(unset(gets[0][1].get(f)) for f in GET_PLAIN)), 'GetObject calls: %d' % len(gets))
        if not gets:
            return
        failed = [c[2] for c in cs if c[2] != 'ok']
        if st.decide(isnil(st, err)):
            P.oblige(st, 'ensures.success-only-if-read', not failed and any(c[0] == 'ReadAll' for c in cs))
            if gets[0][2] == 'ok':
                P.oblige(st, 'ensures.content', seq_eq(st, st.content(data), rdcontent(st, gets[0][1]['body'].t)))
        else:
            P.oblige(st, 'ensures.error-only-if-failed', bool(failed))
            if failed:
                P.oblige(st, 'ensures.not-found-kept', nf_term(st, err) == (nf_term(st, failed[0]) if gets[0][2] != 'ok' else z3.BoolVal(False)))
    forall(P, outs, post)
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[1])))
    reach(P, outs, 'reach.not-found', lambda st, k, r: st.decide(And(Not(isnil(st, r[1])), nf_term(st, r[1]))) if not (isinstance(r[1], Iface) and r[1].ty is None) else False)


def s3_set(P):
    P.prefix = 'ctsubmit.S3Storage.Set/'
    st = State(P)
    b, bucket = s3_pre(P, st)
    key, ctx, data = keyv(st), ctxv(st), st.fresh_seq('data')
    outs = nopanic(P, run(P, st, '(*%sS3Storage).Set' % CS, [b, ctx, key, P.newslice(st, data)]), 'no-panic')

    def post(st, k, r):
        err = r[0]
        puts = [c for c in calls(st) if c[0] == 'PutObject']
        for c in puts:
            P.oblige(st, 'ensures.put-of-the-named-object', And(same(st, c[1]['Bucket'], bucket), same(st, c[1]['Key'], key)))
            P.oblige(st, 'ensures.content', seq_eq(st, c[1]['content'], data) if 'content' in c[1] else False)
        if st.decide(isnil(st, err)):
            P.oblige(st, 'ensures.success-only-if-stored', bool(puts) and puts[-1][2] == 'ok')
        else:
            P.oblige(st, 'ensures.error-only-if-failed', not (puts and puts[-1][2] == 'ok'))
    forall(P, outs, post)
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[0])))
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(Not(isnil(st, r[0]))))


RE = 'github.com/aws/aws-sdk-go-v2/aws/transport/http.ResponseError'


def is404(P, st, e):
    """the error is a response error with status 404"""
    c = ext.errcls(term(e))
    as_ = uf('errAs:**' + RE, [c], BOOL)
    pt = P.mk(st, P.tid['*' + RE], 'as:**' + RE, [c])
    inner = st.load(Ptr(pt.obj, (fidx(P, RE, 'ResponseError'),)))
    return And(as_, uf('httpstatus', [term(inner)], INT) == 404)


def s3_exists(P):
    P.prefix = 'ctsubmit.S3Storage.Exists/'
    st = State(P)
    b, bucket = s3_pre(P, st)
    key, ctx = keyv(st), ctxv(st)
    outs = nopanic(P, run(P, st, '(*%sS3Storage).Exists' % CS, [b, ctx, key]), 'no-panic')

    def post(st, k, r):
        ex, err = r
        hs = [c for c in calls(st) if c[0] == 'HeadObject']
        P.oblige(st, 'ensures.one-head-of-the-named-object', len(hs) == 1 and And(
            same(st, hs[0][1]['Bucket'], bucket), same(st, hs[0][1]['Key'], key), all(unset(hs[0][1].get(f)) for f in GET_PLAIN)))
        if len(hs) != 1:
            return
        out = hs[0][2]
        if out == 'ok':
            P.oblige(st, 'ensures.exists', And(ex, isnil(st, err)))
        else:
            nf = is404(P, st, out)
            if st.decide(nf):
                P.oblige(st, 'ensures.not-found', And(Not(ex), isnil(st, err)))
            else:
                P.oblige(st, 'ensures.failure-is-an-error', Not(isnil(st, err)))
    forall(P, outs, post)
    reach(P, outs, 'reach.exists', lambda st, k, r: st.decide(And(r[0], isnil(st, r[1]))))
    reach(P, outs, 'reach.absent', lambda st, k, r: st.decide(And(Not(r[0]), isnil(st, r[1]))))
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(Not(isnil(st, r[1]))))


def fs_path(P, st, pkg):
    f = symptr(P, st, pkg + 'FsStorage', 'f')
    root = fieldval(P, st, f, pkg + 'FsStorage', 'root')
    return f, root


def fs_get(P, pkg, short):
    P.prefix = short + '.FsStorage.Get/'
    st = State(P)
    f, root = fs_path(P, st, pkg)
    key, ctx = keyv(st), ctxv(st)
    want = root + lit('/') + key
    outs = nopanic(P, run(P, st, '(*%sFsStorage).Get' % pkg, [f, ctx, key]), 'no-panic')

    def post(st, k, r):
        data, err = r[0], r[-1]
        rs = [c for c in calls(st) if c[0] == 'ReadFile']
        P.oblige(st, 'ensures.one-read-of-the-named-file', len(rs) == 1 and same(st, rs[0][1]['name'], want))
        if len(rs) != 1:
            return
        if rs[0][2] == 'ok':
            P.oblige(st, 'ensures.success', isnil(st, err))
            P.oblige(st, 'ensures.content', seq_eq(st, st.content(data), rs[0][1]['content']))
            if len(r) == 3:
                P.oblige(st, 'ensures.found', Not(r[1]))
        else:
            P.oblige(st, 'ensures.failure-is-an-error', Not(isnil(st, err)))
            nf = nf_term(st, rs[0][2]) if len(r) == 2 else uf('errIs', [ext.errcls(term(rs[0][2])), term_notexist(P)], BOOL)
            if len(r) == 3:
                P.oblige(st, 'ensures.not-found-flag', eqt(r[1], nf))
            elif not (isinstance(err, Iface) and err.ty is None):
                P.oblige(st, 'ensures.not-found-kept', nf_term(st, err) == nf)
    forall(P, outs, post)
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[-1])))
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(Not(isnil(st, r[-1]))))


def fs_set(P):
    P.prefix = 'ctsubmit.FsStorage.Set/'
    st = State(P)
    f, root = fs_path(P, st, CS)
    key, ctx, data = keyv(st), ctxv(st), st.fresh_seq('data')
    want = root + lit('/') + key
    outs = nopanic(P, run(P, st, '(*%sFsStorage).Set' % CS, [f, ctx, key, P.newslice(st, data)]), 'no-panic')

    def post(st, k, r):
        err = r[0]
        cs = calls(st)
        ws = [c for c in cs if c[0] == 'WriteFile']
        for c in ws:
            P.oblige(st, 'ensures.write-of-the-named-file', same(st, c[1]['name'], want))
            P.oblige(st, 'ensures.content', seq_eq(st, c[1]['data'], data))
        ms = [c for c in cs if c[0] == 'MkdirAll']
        for c in ms:
            P.oblige(st, 'ensures.parent-directory', same(st, c[1]['name'], pathdir(P, st, [want], None)[0]))
        if st.decide(isnil(st, err)):
            P.oblige(st, 'ensures.success-only-if-stored', bool(ws) and ws[-1][2] == 'ok')
        else:
            P.oblige(st, 'ensures.error-only-if-failed', not (ws and ws[-1][2] == 'ok'))
            # a missing parent directory is created and the write repeated
            n = max([j for j, c in enumerate(cs) if c[0] == 'WriteFile'], default=0)
            made = any(c[0] == 'MkdirAll' and c[2] == 'ok' for c in cs[:n])
            if ws and ws[-1][2] != 'ok' and not made and not any(c[2] != 'ok' for c in ms):
                P.oblige(st, 'ensures.directories-created', Not(uf('errIs', [ext.errcls(term(ws[-1][2])), term_notexist(P)], BOOL)))
    forall(P, outs, post)
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[0])) and len([c for c in calls(st) if c[0] == 'WriteFile']) == 1)
    reach(P, outs, 'reach.mkdir', lambda st, k, r: st.decide(isnil(st, r[0])) and len([c for c in calls(st) if c[0] == 'MkdirAll']) == 1)
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(Not(isnil(st, r[0]))))


def fs_exists(P):
    P.prefix = 'ctsubmit.FsStorage.Exists/'
    st = State(P)
    f, root = fs_path(P, st, CS)
    key, ctx = keyv(st), ctxv(st)
    want = root + lit('/') + key
    outs = nopanic(P, run(P, st, '(*%sFsStorage).Exists' % CS, [f, ctx, key]), 'no-panic')

    def post(st, k, r):
        ex, err = r
        ss = [c for c in calls(st) if c[0] == 'Stat']
        P.oblige(st, 'ensures.one-stat-of-the-named-file', len(ss) == 1 and same(st, ss[0][1]['name'], want))
        if len(ss) != 1:
            return
        if ss[0][2] == 'ok':
            P.oblige(st, 'ensures.exists', And(ex, isnil(st, err)))
        else:
            if st.decide(uf('errIs', [ext.errcls(term(ss[0][2])), term_notexist(P)], BOOL)):
                P.oblige(st, 'ensures.not-found', And(Not(ex), isnil(st, err)))
            else:
                P.oblige(st, 'ensures.failure-is-an-error', Not(isnil(st, err)))
    forall(P, outs, post)
    reach(P, outs, 'reach.exists', lambda st, k, r: st.decide(And(r[0], isnil(st, r[1]))))
    reach(P, outs, 'reach.absent', lambda st, k, r: st.decide(And(Not(r[0]), isnil(st, r[1]))))


def constructors(P):
    P.prefix = 'ctsubmit.NewFsStorage/'
    st = State(P)
    root = st.fresh_seq('root')
    outs = nopanic(P, run(P, st, CS + 'NewFsStorage', [root]), 'no-panic')
    forall(P, outs, lambda st, k, r: P.oblige(st, 'ensures.root', same(st, r[0].f[fidx(P, CS + 'FsStorage', 'root')], root)))
    P.prefix = 'ctsubmit.NewS3Storage/'
    st = State(P)
    a = [st.fresh_seq(n) for n in ('region', 'bucket', 'endpoint', 'username', 'password')]

    def newcfg(P, st, args, i):
        t = P.tid['github.com/aws/aws-sdk-go-v2/aws.Config']
        g = lambda f: args[0].f[fidx(P, 'github.com/aws/aws-sdk-go-v2/aws.Config', f)]
        rec(st, 's3.NewFromConfig', 'ok', region=g('Region'), endpoint=strptr(st, g('BaseEndpoint')), creds=g('Credentials'), opts=args[1])
        return (symptr(P, st, S3 + 'Client', 'client'),)
    P.models[S3 + 'NewFromConfig'] = newcfg
    P.models['github.com/aws/aws-sdk-go-v2/credentials.NewStaticCredentialsProvider'] = lambda P, st, args, i: (
        rec(st, 'creds', 'ok', user=args[0], pw=args[1]), P.fresh(st, i['results'][0], 'creds'))[1:]
    outs = nopanic(P, run(P, st, CS + 'NewS3Storage', a), 'no-panic')

    def post(st, k, r):
        cs = calls(st)
        nc = [c for c in cs if c[0] == 's3.NewFromConfig']
        cr = [c for c in cs if c[0] == 'creds']
        P.oblige(st, 'ensures.bucket', same(st, r[0].f[fidx(P, CS + 'S3Storage', 'bucket')], a[1]))
        P.oblige(st, 'ensures.client-for-the-configured-endpoint', len(nc) == 1 and And(same(st, nc[0][1]['region'], a[0]), same(st, nc[0][1]['endpoint'], a[2])))
        P.oblige(st, 'ensures.credentials', len(cr) == 1 and And(same(st, cr[0][1]['user'], a[3]), same(st, cr[0][1]['pw'], a[4])))
    forall(P, outs, post)


def submit_s3(P):
    install_io(P)
    s3_get(P)
    s3_set(P)
    s3_exists(P)


def submit_fs(P):
    install_io(P)
    fs_get(P, CS, 'ctsubmit')
    fs_set(P)
    fs_exists(P)
    constructors(P)


def monitor_fs(P):
    install_io(P)
    fs_get(P, CM, 'ctmonitor')


HTTPREQ = 'net/http.Request'
HTTPRESP = 'net/http.Response'


def http_models(P):
    m = P.models

    def newreq(P, st, args, i):
        s2 = st.clone()
        o = Ptr(SymObj(st.fresh_u('nn:req'), P.tid[HTTPREQ]))
        rec(st, 'NewRequest', 'ok', method=args[1], url=args[2], body=args[3], req=o)
        e = newerr(s2)
        rec(s2, 'NewRequest', e, method=args[1], url=args[2])
        return [(st, 'ret', (o, NILIF)), (s2, 'ret', (None, e))]
    m['net/http.NewRequestWithContext'] = newreq
    m['net/http.NewRequest'] = lambda P, st, args, i: newreq(P, st, [None] + list(args), i)

    def do(P, st, args, i):
        s2 = st.clone()
        t = P.tid[HTTPRESP]
        o = st.alloc(P.fresh(st, t, 'resp'), t)
        b = SymIface(nn(st, 'body'))
        st.store(Ptr(o, (fidx(P, HTTPRESP, 'Body'),)), b)
        code = st.load(Ptr(o, (fidx(P, HTTPRESP, 'StatusCode'),)))
        rec(st, 'Do', 'ok', req=args[1], code=code, body=b)
        e = newerr(s2)
        rec(s2, 'Do', e, req=args[1])
        return [(st, 'ret', (Ptr(o), NILIF)), (s2, 'ret', (None, e))]
    m['(*net/http.Client).Do'] = do


def url_get(P):
    install_io(P)
    http_models(P)
    P.prefix = 'ctmonitor.UrlStorage.Get/'
    st = State(P)
    f = symptr(P, st, CM + 'UrlStorage', 'f')
    pre = fieldval(P, st, f, CM + 'UrlStorage', 'urlPrefix')
    key, ctx = keyv(st), ctxv(st)
    want = pre + key
    outs = nopanic(P, run(P, st, '(*%sUrlStorage).Get' % CM, [f, ctx, key]), 'no-panic')

    def post(st, k, r):
        data, nf, err = r
        cs = calls(st)
        rq = [c for c in cs if c[0] == 'NewRequest']
        do = [c for c in cs if c[0] == 'Do']
        P.oblige(st, 'ensures.one-get-of-the-named-object', len(rq) == 1 and And(same(st, rq[0][1]['url'], want), same(st, rq[0][1]['method'], lit('GET'))))
        if do and rq and rq[0][2] == 'ok':
            P.oblige(st, 'ensures.the-request-is-sent', len(do) == 1 and same_ptr(do[0][1]['req'], rq[0][1]['req']))
        failed = any(c[2] != 'ok' for c in cs)
        code = do[0][1].get('code') if do and do[0][2] == 'ok' else None
        if st.decide(isnil(st, err)):
            P.oblige(st, 'ensures.success-only-if-read', code is not None and not failed and And(eqt(code, 200), Not(nf)))
            if code is not None:
                P.oblige(st, 'ensures.content', seq_eq(st, st.content(data), rdcontent(st, do[0][1]['body'].t)))
        else:
            P.oblige(st, 'ensures.error-only-if-failed', failed or (code is not None and Not(eqt(code, 200))))
            P.oblige(st, 'ensures.not-found-flag', eqt(nf, And(code is not None, eqt(code, 404)) if code is not None else False))
    forall(P, outs, post)
    reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[2])))
    reach(P, outs, 'reach.absent', lambda st, k, r: st.decide(And(r[1], Not(isnil(st, r[2])))))
    reach(P, outs, 'reach.err', lambda st, k, r: st.decide(And(Not(r[1]), Not(isnil(st, r[2])))))


def fastly_get(P):
    install_io(P)
    P.prefix = 'ctmonitor.FastlyStorage.Get/'
    m = P.models
    RESP, REQ = FH + 'Response', FH + 'Request'

    def newreq(P, st, args, i):
        s2 = st.clone()
        o = Ptr(st.alloc(P.fresh(st, P.tid[REQ], 'req'), P.tid[REQ]))
        rec(st, 'NewRequest', 'ok', method=args[0], url=args[1], req=o)
        e = newerr(s2)
        rec(s2, 'NewRequest', e, method=args[0], url=args[1])
        return [(st, 'ret', (o, NILIF)), (s2, 'ret', (None, e))]
    m[FH + 'NewRequest'] = newreq

    def send(P, st, args, i):
        s2 = st.clone()
        t = P.tid[RESP]
        o = st.alloc(P.fresh(st, t, 'resp'), t)
        b = SymIface(nn(st, 'body'))
        st.store(Ptr(o, (fidx(P, RESP, 'Body'),)), b)
        code = st.load(Ptr(o, (fidx(P, RESP, 'StatusCode'),)))
        rec(st, 'Send', 'ok', req=args[0], backend=args[2], code=code, body=b)
        e = newerr(s2)
        rec(s2, 'Send', e, req=args[0], backend=args[2])
        return [(st, 'ret', (Ptr(o), NILIF)), (s2, 'ret', (None, e))]
    m['(*%s).Send' % REQ] = send

    def getorset(P, st, args, i):
        """simple.GetOrSet: a stored body, or the outcome of the callback, or a failure of its own"""
        ck = ext.seqof(st, args[0])
        hit = st.clone()
        h = SymIface(nn(hit, 'hit'))
        rec(hit, 'CacheHit', 'ok', key=ck, body=h)
        own = st.clone()
        e0 = newerr(own)
        rec(own, 'CacheFail', e0)
        res = [(hit, 'ret', (h, NILIF)), (own, 'ret', (P.zero(own, i['results'][0]), e0))]
        rec(st, 'CacheMiss', 'ok', key=ck)
        for s, k, v in P.call(st, args[1], [], i):
            if k == 'panic':
                res.append((s, k, v))
                continue
            ent, err = v
            for s2 in P.split(s, isnil(s, err)):
                if s2[1]:
                    s2 = s2[0]
                    s3 = s2.clone()
                    e = newerr(s3)
                    rec(s3, 'CacheFail', e)
                    res.append((s3, 'ret', (P.zero(s3, i['results'][0]), e)))
                    body = ent.f[fidx(P, 'github.com/fastly/compute-sdk-go/cache/simple.CacheEntry', 'Body')]
                    c = reader_content(P, s2, body)
                    rd = Iface('*bytes.Reader', Ptr(s2.alloc(St(None, (c,)), None)))
                    res.append((s2, 'ret', (rd, NILIF)))
                else:
                    res.append((s2[0], 'ret', (P.zero(s2[0], i['results'][0]), err)))
        return res
    m['github.com/fastly/compute-sdk-go/cache/simple.GetOrSet'] = getorset
    m['(*bytes.Reader).Close'] = lambda P, st, a, i: (NILIF,)

    def getenv(P, st, args, i):
        t = uf('env', [core.reifyst(st, args[0])], core.U)
        l = uf('len', [t], INT)
        st.fact(z3.And(l >= 0, l < 2 ** 20))
        return (Seq([Sub(t, 0, l)]),)
    m['os.Getenv'] = getenv
    FS = CM + 'FastlyStorage'
    CE = CM + 'CacheEntry'
    st = State(P)
    f = symptr(P, st, FS, 'f')
    backend = fieldval(P, st, f, FS, 'backend')
    st.fact(uf('len', [backend.p[0].atom], INT) < 2 ** 20)
    key, ctx = keyv(st), ctxv(st)
    cache = fieldval(P, st, f, FS, 'cache')
    st.fact(cache.obj.t != NIL) if isinstance(cache.obj, SymObj) else None
    # ghost view of the request cache before the call
    vt = P.U(P.U(P.tid[FS])['fields'][fidx(P, FS, 'cache')]['t'])['elem']
    mv0 = P.mapv(st, cache)
    for s, v0, had in P.all_paths(st, lambda s: (s,) + tuple(P.map_lookup(s, cache, key, vt))):
        if had:
            s.fact(v0.obj.t != NIL) if isinstance(v0.obj, SymObj) else None
            c0 = s.load(Ptr(v0.obj, tuple(v0.path) + (fidx(P, CE, 'status'),)))
            b0 = s.load(Ptr(v0.obj, tuple(v0.path) + (fidx(P, CE, 'body'),)))
        want = lit('https://') + backend + lit('/') + key
        k2 = s.fresh_seq('otherkey')
        outs = nopanic(P, run(P, s, '(*%s).Get' % FS, [f, ctx, key]), 'no-panic')

        def post(st, k, r):
            data, nf, err = r
            cs = calls(st)
            rq = [c for c in cs if c[0] == 'NewRequest']
            sd = [c for c in cs if c[0] == 'Send']
            if had and not cs:
                if st.decide(isnil(st, err)):
                    P.oblige(st, 'cached.success-only-if-cached', And(eqt(c0, 200), Not(nf)))
                    P.oblige(st, 'cached.content', seq_eq(st, st.content(data), st.content(b0)))
                else:
                    P.oblige(st, 'cached.error-only-if-cached', Not(eqt(c0, 200)))
                    P.oblige(st, 'cached.not-found-flag', eqt(nf, eqt(c0, 404)))
                return
            P.oblige(st, 'ensures.at-most-one-request', len(rq) <= 1 and len(sd) <= 1)
            for c in rq:
                P.oblige(st, 'ensures.get-of-the-named-object', And(same(st, c[1]['url'], want), same(st, c[1]['method'], lit('GET'))))
            for c in sd:
                P.oblige(st, 'ensures.sent-to-the-backend', same(st, c[1]['backend'], backend))
                P.oblige(st, 'ensures.the-request-is-sent', bool(rq) and rq[0][2] == 'ok' and same_ptr(c[1]['req'], rq[0][1]['req']))
            hits = [c for c in cs if c[0] in ('CacheHit', 'CacheMiss')]
            for c in hits:
                ver = getenv(P, st, [lit('FASTLY_SERVICE_VERSION')], None)[0]
                P.oblige(st, 'ensures.cache-key-names-the-object', same(st, c[1]['key'], ver + want))
            failed = any(c[2] != 'ok' for c in cs)
            code = sd[0][1].get('code') if sd and sd[0][2] == 'ok' else None
            if st.decide(isnil(st, err)):
                if code is not None:
                    P.oblige(st, 'ensures.success-only-if-read', not failed and And(eqt(code, 200), Not(nf)))
                    P.oblige(st, 'ensures.content', seq_eq(st, st.content(data), rdcontent(st, sd[0][1]['body'].t)))
                else:
                    h = [c for c in cs if c[0] == 'CacheHit']
                    P.oblige(st, 'ensures.hit-success', len(h) == 1 and not failed and Not(nf))
                    if h:
                        P.oblige(st, 'ensures.hit-content', seq_eq(st, st.content(data), rdcontent(st, h[0][1]['body'].t)))
            else:
                P.oblige(st, 'ensures.error-only-if-failed', failed or (code is not None and Not(eqt(code, 200))))
                P.oblige(st, 'ensures.not-found-flag', eqt(nf, eqt(code, 404) if code is not None else False))
            # an entry recorded in the request cache describes the response
            v, ok = P.map_lookup(st, fieldval(P, st, f, FS, 'cache'), key, vt)
            if ok:
                P.oblige(st, 'cache.only-from-a-response', code is not None)
                if code is not None:
                    cst = st.load(Ptr(v.obj, tuple(v.path) + (fidx(P, CE, 'status'),)))
                    P.oblige(st, 'cache.status', eqt(cst, code))
                    if st.decide(eqt(code, 200)):
                        bd = st.load(Ptr(v.obj, tuple(v.path) + (fidx(P, CE, 'body'),)))
                        P.oblige(st, 'cache.body', seq_eq(st, st.content(bd), rdcontent(st, sd[0][1]['body'].t)))
            # and no other entry changed
            if not st.decide(seq_eq(st, k2, key)):
                va, oka = P.mapv_lookup(st, mv0, k2, vt)
                vb, okb = P.map_lookup(st, fieldval(P, st, f, FS, 'cache'), k2, vt)
                P.oblige(st, 'cache.others-unchanged', And(eqt(oka, okb), val_eq(st, va, vb) if oka is True else True))
        forall(P, outs, post)
        if not had:
            reach(P, outs, 'reach.ok', lambda st, k, r: st.decide(isnil(st, r[2])))
            reach(P, outs, 'reach.absent', lambda st, k, r: st.decide(And(r[1], Not(isnil(st, r[2])))))
            reach(P, outs, 'reach.local', lambda st, k, r: not any(c[0].startswith('Cache') for c in calls(st)) and st.decide(isnil(st, r[2])))
            reach(P, outs, 'reach.err', lambda st, k, r: st.decide(And(Not(r[1]), Not(isnil(st, r[2])))))


UNITS = [('submit-s3', submit_s3), ('submit-fs', submit_fs), ('monitor-fs', monitor_fs), ('monitor-url', url_get), ('monitor-fastly', fastly_get)]

UNDER = ['(*%sS3Storage).%s' % (CS, f) for f in ('Get', 'Set', 'Exists')] + ['(*%sFsStorage).%s' % (CS, f) for f in ('Get', 'Set', 'Exists')] + [
    '(*%sFsStorage).Get' % CM, '(*%sUrlStorage).Get' % CM, '(*%sFastlyStorage).Get' % CM, 'their constructors']
ASSUMPTIONS = ['aws-sdk-go-v2 s3 Get/Put/HeadObject act on the object named by Bucket and Key and report a missing key as NoSuchKey / NotFound or a 404 response',
               'os.ReadFile, os.WriteFile, os.MkdirAll, os.Stat and filepath.Join behave as documented (a failed or interrupted write may leave anything: FsStorage.Set is not claimed to be atomic)',
               'net/http Client.Do and fsthttp Request.Send return the response of the server to the request given; io.ReadAll returns the whole body or an error',
               'fastly cache/simple.GetOrSet returns the body stored under the key or the one its callback returned, and fails when the callback fails']

FASTLY_HOOKS = [('github.com/fastly/compute-sdk-go', [
    ('fsthttp/request.go', 'func (req *Request) Send(ctx context.Context, backend string) (*Response, error) {',
     'var VerifSend func(req *Request, backend string) (*Response, error)\n\nfunc (req *Request) Send(ctx context.Context, backend string) (*Response, error) {\n\tif VerifSend != nil {\n\t\treturn VerifSend(req, backend)\n\t}'),
    ('cache/simple/simple.go', 'func GetOrSet(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error) {',
     'var VerifGetOrSet func(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error)\n\nfunc GetOrSet(key []byte, setFn func() (CacheEntry, error)) (io.ReadCloser, error) {\n\tif VerifGetOrSet != nil {\n\t\treturn VerifGetOrSet(key, setFn)\n\t}'),
])]

REPLAY = [{'pkg': 'internal/ctsubmit', 'file': 'c17s_test.go', 'test': 'TestVerifC17Submit', 'with': ['vh_test.go', 'vhs3_test.go']},
          {'pkg': 'internal/ctmonitor', 'file': 'c17m_test.go', 'test': 'TestVerifC17Monitor', 'with': ['vh_test.go'], 'patchmod': FASTLY_HOOKS}]
