"""Trusted contracts of the I/O dependencies: os, io, net/http, S3, fastly.

Every call is recorded in the ghost trace st.ghost['calls'] as a tuple
(operation, {argument: value}, outcome); contracts speak about that trace.
"""
from verify import *
from spec import *
from leaf import fidx
import core

S3 = 'github.com/aws/aws-sdk-go-v2/service/s3.'
FH = 'github.com/fastly/compute-sdk-go/fsthttp.'


def calls(st):
    return list(st.ghost.get('calls', ()))


def rec(st, op, out, **kw):
    st.ghost['calls'] = tuple(st.ghost.get('calls', ())) + ((op, kw, out),)


def fieldval(P, st, p, tname, f):
    return st.load(Ptr(p.obj, tuple(p.path) + (fidx(P, tname, f),)))


def strptr(st, p):
    """content of a *string field (aws.String)"""
    if isinstance(p, Ptr) and not isinstance(p.obj, SymObj):
        return st.load(p)
    return None


def rdcontent(st, t):
    """the bytes a reader named by term t delivers"""
    a = uf('rd', [t], core.U)
    l = uf('len', [a], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 40))
    return Seq([Sub(a, 0, l)])


def reader_content(P, st, r):
    if isinstance(r, Iface):
        if isinstance(r.v, Ptr):
            v = st.load(r.v) if isinstance(r.v.obj, int) else None
            if isinstance(v, St) and v.f and isinstance(v.f[0], Seq):
                return v.f[0]
        return rdcontent(st, term(r.v))
    if isinstance(r, SymIface):
        return rdcontent(st, r.t)
    raise Unsupported('reader %r' % (r,))


def read_all(P, st, args, i):
    s2 = st.clone()
    c = reader_content(P, st, args[0])
    rec(st, 'ReadAll', 'ok', content=c)
    e = newerr(s2)
    s2.fact(z3.Not(nf_term(s2, e)))
    rec(s2, 'ReadAll', e)
    return [(st, 'ret', (bytesv(P, st, c), NILIF)), (s2, 'ret', (bytesv(P, s2, s2.fresh_seq('partial')), e))]


def bytesv(P, st, c):
    return P.newslice(st, c)


def nf_term(st, e):
    """the error is one the log treats as not found: s3types.NoSuchKey or os.ErrNotExist"""
    c = ext.errcls(term(e))
    return z3.Or(uf('errAs:**github.com/aws/aws-sdk-go-v2/service/s3/types.NoSuchKey', [c], BOOL),
                 uf('errIs', [c, term_notexist(st.prog)], BOOL))


def term_notexist(P):
    return term(P.symload(State(P), SymObj(z3.Const('g:os.ErrNotExist', core.U), P.tid['error']), ()))


def bytes_reader(P, st, args, i):
    c = ext.seqof(st, args[0])
    return (Ptr(st.alloc(St(None, (c,)), None)),)


def s3_call(op, outtype):
    def m(P, st, args, i):
        inp = args[2]
        t = P.tid[S3 + op + 'Input']
        kw = {'ctx': args[1], 'client': args[0]}
        for n, f in enumerate(P.U(t)['fields']):
            kw[f['n']] = st.load(Ptr(inp.obj, tuple(inp.path) + (n,)))
        kw['Bucket'] = strptr(st, kw['Bucket'])
        kw['Key'] = strptr(st, kw['Key'])
        kw['opts'] = args[3]
        if kw.get('Body') is not None and op == 'PutObject':
            kw['content'] = reader_content(P, st, kw['Body'])
        s2 = st.clone()
        ot = P.tid[S3 + op + 'Output']
        o = st.alloc(P.fresh(st, ot, 'out'), ot)
        if op == 'GetObject':
            b = SymIface(nn(st, 'body'))
            st.store(Ptr(o, (fidx(P, S3 + 'GetObjectOutput', 'Body'),)), b)
            kw['body'] = b
        rec(st, op, 'ok', **kw)
        e = newerr(s2)
        kw2 = dict(kw)
        rec(s2, op, e, **kw2)
        return [(st, 'ret', (Ptr(o), NILIF)), (s2, 'ret', (None, e))]
    return m


nn = ext.nn
newerr = ext.newerr


def simple(op, names, results=None):
    """recorded call: either ok or a fresh error (the last result)"""
    def m(P, st, args, i):
        kw = dict(zip(names, args))
        s2 = st.clone()
        vals = results(P, st, kw) if results else ()
        rec(st, op, 'ok', **kw)
        e = newerr(s2)
        rec(s2, op, e, **kw)
        zs = tuple(P.zero(s2, t) for t in i['results'][:-1])
        return [(st, 'ret', tuple(vals) + (NILIF,)), (s2, 'ret', zs + (e,))]
    return m


def read_file(P, st, args, i):
    s2 = st.clone()
    a = uf('filecontent', [ext.reifyst(st, args[0]) if hasattr(ext, 'reifyst') else core.reifyst(st, args[0])], core.U)
    l = uf('len', [a], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 40))
    c = Seq([Sub(a, 0, l)])
    rec(st, 'ReadFile', 'ok', name=args[0], content=c)
    e = newerr(s2)
    rec(s2, 'ReadFile', e, name=args[0])
    return [(st, 'ret', (bytesv(P, st, c), NILIF)), (s2, 'ret', (P.zero(s2, i['results'][0]), e))]


def write_file(P, st, args, i):
    s2 = st.clone()
    kw = dict(name=args[0], data=ext.seqof(st, args[1]))
    rec(st, 'WriteFile', 'ok', **kw)
    e = newerr(s2)
    rec(s2, 'WriteFile', e, **kw)
    return [(st, 'ret', (NILIF,)), (s2, 'ret', (e,))]


def is_notexist(P, st, args, i):
    """os.IsNotExist: on the unwrapped errors of os calls the same as errors.Is(err, os.ErrNotExist)"""
    e = args[0]
    if isinstance(e, Iface) and e.ty is None:
        return (False,)
    return (uf('errIs', [ext.errcls(term(e)), term_notexist(P)], BOOL),)


def pathdir(P, st, args, i):
    return (Seq([Sub(uf('dir', [core.reifyst(st, args[0])], core.U), 0, uf('len', [uf('dir', [core.reifyst(st, args[0])], core.U)], INT))]),)


def http_status(P, st, args, i):
    t = uf('httpstatus', [term(args[0])], INT)
    return (t,)


def hasprefix(P, st, args, i):
    s, p = args
    if isinstance(p, Seq) and p.concrete() is not None:
        k = p.concrete()
        if not st.decide(ge(s.len, len(k))):
            return (False,)
        return (seq_eq(st, seq_slice(st, s, 0, len(k)), p),)
    return (st.fresh_bool('hasprefix'),)


def hassuffix(P, st, args, i):
    s, p = args
    if isinstance(p, Seq) and p.concrete() is not None:
        k = p.concrete()
        if not st.decide(ge(s.len, len(k))):
            return (False,)
        return (seq_eq(st, seq_slice(st, s, sub(s.len, len(k)), s.len), p),)
    return (st.fresh_bool('hassuffix'),)


def install_io(P):
    m = P.models
    P.gvals['io/fs.ErrNotExist'] = Ptr(SymObj(z3.Const('g:os.ErrNotExist', core.U), P.tid['error']))
    m['io.ReadAll'] = read_all
    m['bytes.NewReader'] = bytes_reader
    for op in ('GetObject', 'PutObject', 'HeadObject'):
        m['(*%sClient).%s' % (S3, op)] = s3_call(op, None)
    m['(*github.com/aws/smithy-go/transport/http.ResponseError).HTTPStatusCode'] = http_status
    m['os.ReadFile'] = read_file
    m['os.WriteFile'] = write_file
    m['os.IsNotExist'] = is_notexist
    m['os.MkdirAll'] = simple('MkdirAll', ['name', 'perm'])
    m['os.Stat'] = simple('Stat', ['name'], lambda P, st, kw: (SymIface(nn(st, 'fi')),))
    m['path/filepath.Dir'] = pathdir
    m['strings.HasPrefix'] = hasprefix
    m['strings.HasSuffix'] = hassuffix
    P.imodels[('*', 'Close')] = lambda P, st, a, i: (SymIface(st.fresh_u('closeerr')),)
