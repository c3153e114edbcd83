"""Trusted contracts of the dependencies (Go standard library, cryptobyte, tlog, ...).

Every model states what the verifier assumes about a function that is outside
/repo.  Models only ever read/modify the symbolic state; anything not listed
here is havocked (any result, local memory passed by pointer unknown).
"""
import hashlib
import re
from core import *
import core
from exec import GoPanic, norm

CB = 'golang.org/x/crypto/cryptobyte.'


def nn(st, name='err'):
    t = st.fresh_u('nn:' + name)
    st.fact(t != NIL)
    return t


def newerr(st, name='err'):
    return SymIface(nn(st, name))


def okerr(P, st, ok, i, zero=None):
    """two outcomes: (results ok..., nil) or (zero values, non-nil error)"""
    s2 = st.clone()
    rs = i['results']
    z = tuple(P.zero(s2, t) for t in rs[:-1]) if zero is None else zero
    return [(st, 'ret', tuple(ok) + (NILIF,)), (s2, 'ret', z + (newerr(s2),))]


def seqof(st, v):
    return v if isinstance(v, Seq) else st.content(v)


def bytesval(P, st, seq):
    return P.newslice(st, seq)


# ------------------------------------------------------------------ hashes, strings
def sha256(st, seq):
    c = seq.concrete()
    if c is not None:
        return lit(hashlib.sha256(bytes(c)).digest())
    t = uf('sha256', [reifyst(st, seq)], U)
    st.prog.sha_pre[t.get_id()] = (t, seq)
    st.fact(uf('len', [t], INT) == 32)
    return Seq([Sub(t, 0, 32)])


def decstr(st, v):
    """decimal string of an integer"""
    if not isz(v):
        return lit(str(v))
    t = uf('decstr', [v], U)
    l = uf('len', [t], INT)
    st.fact(uf('undec', [t], INT) == v)
    st.fact(uf('isdec', [t], BOOL))
    st.fact(z3.And(l >= 1, l <= 20))
    return Seq([Sub(t, 0, l)])


def hexdigit(x):
    if not isz(x):
        return b'0123456789abcdef'[x]
    return simp(z3.If(x < 10, x + 48, x + 87))


def hexstr(st, s):
    n = s.len
    if not isz(n) and n <= 64:
        out = []
        for i in range(n):
            b = seq_get(st, s, i)
            out += [hexdigit(simp(tz(b) / 16)), hexdigit(simp(tz(b) % 16))]
        return Seq([Lit(out)]) if out else Seq()
    t = uf('hex', [reifyst(st, s)], U)
    st.fact(uf('len', [t], INT) == tz(n) * 2)
    return Seq([Sub(t, 0, uf('len', [t], INT))])


def fmt_arg(P, st, verb, flags, a):
    """string of one formatted argument, or None when unknown"""
    if isinstance(a, Iface):
        ty, v = a.ty, a.v
        if isinstance(v, Seq) and P.isstring(P.tid.get(ty, -1)) if ty in P.tid else isinstance(v, Seq):
            if verb in 'sv' and not flags:
                return v
        if (isz(v) and z3.is_int(v)) or (isinstance(v, int) and not isinstance(v, bool)):
            if verb in 'dv':
                if not flags:
                    return decstr(st, v)
                if flags[0] == '0' and flags[1:].isdigit():
                    w = int(flags[1:])
                    if not isz(v):
                        return lit(('%0' + str(w) + 'd') % v)
                    if st.decide(And(ge(v, 0), lt(v, 10 ** w))):
                        return Seq([Lit([simp(48 + tz(idiv(v, 10 ** (w - 1 - i))) % 10) for i in range(w)])])
        if verb == 'x' and not flags and isinstance(v, (Seq, SliceV)):
            return hexstr(st, seqof(st, v))
        if verb in 'sv' and isinstance(v, SliceV) and verb == 's' and not flags:
            return st.content(v)
    try:
        t = uf('fmt%' + flags + verb, [term(a)], U)
    except Unsupported:
        t = st.fresh_u('fmt')
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 40))
    return Seq([Sub(t, 0, l)])


def sprintf(P, st, args, i):
    f = args[0].concrete()
    va = st.content(args[1])
    n = va.len
    if f is None or isz(n):
        return (st.fresh_seq('sprintf'),)
    items = [seq_get(st, va, k) for k in range(n)]
    f = f.decode()
    out = Seq()
    k = 0
    a = 0
    buf = ''
    while k < len(f):
        if f[k] != '%':
            buf += f[k]
            k += 1
            continue
        k += 1
        if f[k] == '%':
            buf += '%'
            k += 1
            continue
        fl = ''
        while not f[k].isalpha():
            fl += f[k]
            k += 1
        verb = f[k]
        k += 1
        if a >= len(items):
            return (st.fresh_seq('sprintf'),)
        out = out + lit(buf) + fmt_arg(P, st, verb, fl, items[a])
        buf = ''
        a += 1
    return (out + lit(buf),)


def errorf(P, st, args, i):
    """fmt.Errorf: a non-nil error; %w keeps the errors.Is/As classes of the wrapped error"""
    e = newerr(st)
    f = args[0].concrete()
    if f is not None and b'%w' in f:
        va = st.content(args[1])
        if not isz(va.len):
            for k in range(va.len):
                x = seq_get(st, va, k)
                if isinstance(x, (SymIface, Iface)):
                    if isinstance(x, SymIface):
                        st.fact(uf('errcls', [e.t], U) == uf('errcls', [x.t], U))
    return (e,)


# ------------------------------------------------------------------ cryptobyte
def cb_zero():
    return St(None, (Seq(), False))


def cb_append(P, st, b, seq):
    P.nilcheck(st, b)
    v = st.load(b)
    st.store(b, St(v.ty, (v.f[0] + seq,) + v.f[1:]))


def cb_adduint(n):
    def m(P, st, args, i):
        cb_append(P, st, args[0], be(n, args[1]))
        return ()
    return m


def cb_addbytes(P, st, args, i):
    cb_append(P, st, args[0], seqof(st, args[1]))
    return ()


def cb_prefixed(n):
    def m(P, st, args, i):
        b, f = args
        P.nilcheck(st, b)
        o = st.alloc(cb_zero(), None)
        outs = []
        for s2, kind, r in P.call(st, f, [Ptr(o)], {'results': []}):
            if kind != 'ret':
                outs.append((s2, kind, r))
                continue
            c = s2.heap[o]
            v = s2.load(b)
            l = c.f[0].len
            err = Or(v.f[1], c.f[1], ge(l, 256 ** n))
            s2.store(b, St(v.ty, (v.f[0] + be(n, l if not isz(l) else l) + c.f[0], err) + v.f[2:]))
            outs.append((s2, 'ret', ()))
        return outs
    return m


def cb_asn1(P, st, args, i):
    """AddASN1(tag, f): tag, DER length, content"""
    b, tag, f = args
    P.nilcheck(st, b)
    o = st.alloc(cb_zero(), None)
    outs = []
    for s2, kind, r in P.call(st, f, [Ptr(o)], {'results': []}):
        if kind != 'ret':
            outs.append((s2, kind, r))
            continue

        c = s2.heap[o]
        l = c.f[0].len
        work = [s2]
        while work:
            s3 = work.pop()
            try:
                if not isz(l):
                    hd = [l] if l < 128 else ([0x81, l] if l < 256 else None)
                elif s3.decide(lt(l, 128)):
                    hd = [l]
                elif s3.decide(lt(l, 256)):
                    hd = [0x81, l]
                else:
                    hd = None
            except Fork as k:
                for cond in (z3.Not(k.cond), k.cond):
                    s4 = s3.clone()
                    s4.fact(simp(cond))
                    work.append(s4)
                continue
            v = s3.load(b)
            if hd is None:
                pre = s3.fresh_seq('derlen')
            else:
                pre = Seq([Lit(hd)])
            s3.store(b, St(v.ty, (v.f[0] + Seq([Lit([tag])]) + pre + c.f[0], Or(v.f[1], c.f[1])) + v.f[2:]))
            outs.append((s3, 'ret', ()))
    return outs


def cb_seterror(P, st, args, i):
    P.nilcheck(st, args[0])
    v = st.load(args[0])
    st.store(args[0], St(v.ty, (v.f[0], True) + v.f[2:]))
    return ()


def cb_result(P, st, v):
    if len(v.f) > 2:
        return P.append(st, v.f[2], v.f[0])
    return P.newslice(st, v.f[0])


def cb_bytes(P, st, args, i):
    P.nilcheck(st, args[0])
    v = st.load(args[0])
    if st.decide(simp(v.f[1]) if isz(v.f[1]) else v.f[1]):
        return (P.zero(st, i['results'][0]), newerr(st))
    return (cb_result(P, st, v), NILIF)


def cb_bytespanic(P, st, args, i):
    P.nilcheck(st, args[0])
    v = st.load(args[0])
    if st.decide(simp(v.f[1]) if isz(v.f[1]) else v.f[1]):
        raise GoPanic('cryptobyte: BytesOrPanic')
    return (cb_result(P, st, v),)


def cb_new(P, st, args, i):
    o = st.alloc(St(None, (Seq(), False, args[0])), None)
    return (Ptr(o),)


def cs_read(P, st, s, n):
    """advance *s by n bytes; None when too short"""
    P.nilcheck(st, s)
    v = st.load(s)
    if not st.decide(le(n, v.len)):
        return None
    a = SliceV(v.base, v.off, n, v.cap, v.nil)
    st.store(s, SliceV(v.base, add(v.off, n), sub(v.len, n), sub(v.cap, n), v.nil))
    return a


def cs_uint(n):
    def m(P, st, args, i):
        a = cs_read(P, st, args[0], n)
        if a is None:
            return (False,)
        st.store(args[1], seq_int(st, st.content(a), 'be'))
        return (True,)
    return m


def cs_prefixed(n):
    def m(P, st, args, i):
        a = cs_read(P, st, args[0], n)
        if a is None:
            return (False,)
        l = seq_int(st, st.content(a), 'be')
        b = cs_read(P, st, args[0], l)
        if b is None:
            return (False,)
        st.store(args[1], b)
        return (True,)
    return m


def cs_readbytes(P, st, args, i):
    n = args[2]
    if st.decide(lt(n, 0)):
        return (False,)
    a = cs_read(P, st, args[0], n)
    if a is None:
        return (False,)
    st.store(args[1], a)
    return (True,)


def cs_copybytes(P, st, args, i):
    a = cs_read(P, st, args[0], args[1].len)
    if a is None:
        return (False,)
    P.copy(st, args[1], st.content(a))
    return (True,)


def cs_skip(P, st, args, i):
    return (cs_read(P, st, args[0], args[1]) is not None,)


# ------------------------------------------------------------------ strings.Builder, binary, bytes
def sb_write(P, st, args, i):
    P.nilcheck(st, args[0])
    v = st.load(args[0])
    s = seqof(st, args[1])
    st.store(args[0], St(None, (v.f[0] + s,)))
    rs = i['results']
    return (s.len, NILIF) if len(rs) == 2 else ()


def sb_writebyte(P, st, args, i):
    P.nilcheck(st, args[0])
    v = st.load(args[0])
    st.store(args[0], St(None, (v.f[0] + unit(args[1]),)))
    return (NILIF,)


def sb_string(P, st, args, i):
    P.nilcheck(st, args[0])
    return (st.load(args[0]).f[0],)


def put_uint(n, kind):
    def m(P, st, args, i):
        b, v = args[1], args[2]
        P.bounds(st, ge(b.len, n), 'index out of range (binary.Put)')
        sl = SliceV(b.base, b.off, n, n, False)
        P.copy(st, sl, be(n, v) if kind == 'be' else leb(n, v))
        return ()
    return m


def get_uint(n, kind):
    def m(P, st, args, i):
        b = args[1]
        P.bounds(st, ge(b.len, n), 'index out of range (binary)')
        s = seq_slice(st, st.content(b), 0, n)
        return (seq_int(st, s, kind),)
    return m


def append_uint(n, kind):
    def m(P, st, args, i):
        return (P.append(st, args[1], be(n, args[2]) if kind == 'be' else leb(n, args[2])),)
    return m


def bytes_equal(P, st, args, i):
    a, b = seqof(st, args[0]), seqof(st, args[1])
    return (simp(tz(seq_eq(st, a, b))),)


def fixlen(P, st, s):
    """s with its length as a number where the path determines it"""
    if isz(s.len) and len(s.p) == 1 and isinstance(s.p[0], Sub):
        n = P.const_of(st, s.len)
        if n is not None:
            p = s.p[0]
            r = Seq([Sub(p.atom, p.off, n, p.ety)])
            st.fact(reifyst(st, s) == reifyst(st, r))
            return r
    return s


def bytes_compare(P, st, args, i):
    a, b = fixlen(P, st, seqof(st, args[0])), fixlen(P, st, seqof(st, args[1]))
    if st.decide(simp(tz(seq_eq(st, a, b)))):
        return (0,)
    if not isz(a.len) and not isz(b.len) and a.len == b.len:
        st.fact(tz(Not(eqt(ordkey(st, a), ordkey(st, b)))))
    return (-1 if st.decide(seqlt(st, a, b)) else 1,)


def ordkey(st, s):
    """an integer key for byte strings of one concrete length: order of keys = lexicographic order"""
    n = s.len
    if isz(n):
        return None
    return seq_int(st, s, 'be')


def seqlt(st, a, b):
    if not isz(a.len) and not isz(b.len) and a.len == b.len:
        return lt(ordkey(st, a), ordkey(st, b))
    ta, tb = reifyst(st, a), reifyst(st, b)
    return uf('bytelt', [ta, tb], BOOL)


def bytes_clone(P, st, args, i):
    s = args[0]
    if s.base is None:
        return (s,)
    return (P.newslice(st, st.content(s)),)


# ------------------------------------------------------------------ errors
def errcls(e):
    return uf('errcls', [e], U)


def err_is(P, st, args, i):
    e, t = args
    if isinstance(e, Iface) and e.ty is None:
        return (False,)
    te, tt = term(e), term(t)
    r = uf('errIs', [errcls(te), tt], BOOL)
    st.fact(z3.Implies(te == NIL, z3.Not(r))) if isinstance(e, SymIface) else None
    return (r,)


def err_as(P, st, args, i):
    e, t = args
    if isinstance(e, Iface) and e.ty is None:
        return (False,)
    te = term(e)
    ty = t.ty if isinstance(t, Iface) else '?'
    r = uf('errAs:' + str(ty), [errcls(te)], BOOL)
    st.fact(z3.Implies(te == NIL, z3.Not(r))) if isinstance(e, SymIface) else None
    if st.decide(r):
        v = t.v if isinstance(t, Iface) else None
        if isinstance(v, Ptr) and isinstance(v.obj, int):
            ht = st.htype.get(v.obj)
            if isinstance(ht, int):
                x = P.mk(st, ht, 'as:' + str(ty), [errcls(te)])
                if isinstance(x, Ptr) and isinstance(x.obj, SymObj):
                    st.fact(x.obj.t != NIL)
                if isinstance(x, SymIface):
                    st.fact(x.t != NIL)
                st.store(v, x)
        return (True,)
    return (False,)


def err_new(P, st, args, i):
    return (newerr(st),)


# ------------------------------------------------------------------ JSON / encodings
def json_marshal(P, st, args, i):
    """a deterministic function of the value; may fail"""
    v = args[0]
    s = jsonof(P, st, v)
    outs = okerr(P, st, (bytesval(P, st, s),), i)
    s2, _, r = outs[1]
    s2.ghost['calls'] = tuple(s2.ghost.get('calls', ())) + (('json.Marshal', {}, r[-1]),)
    return outs


def deepterm(P, st, v):
    """term determined by the deep content of a value (slices and pointers by content)"""
    if isinstance(v, Iface):
        return NIL if v.ty is None else uf('iface:' + str(v.ty), [deepterm(P, st, v.v)], U)
    if isinstance(v, St):
        return uf('st%d' % len(v.f), [deepterm(P, st, x) for x in v.f], U) if v.f else z3.Const('st0', U)
    if isinstance(v, SliceV):
        s = deepseq(P, st, st.content(v))
        return reifyst(st, s)
    if isinstance(v, Seq):
        return reifyst(st, deepseq(P, st, v))
    if isinstance(v, Ptr) and isinstance(v.obj, (int, ConstObj)):
        return uf('ref', [deepterm(P, st, st.load(v))], U)
    return term(v)


def deepseq(P, st, s):
    out = []
    for p in s.p:
        if isinstance(p, Lit) and not all(isinstance(x, int) or isz(x) for x in p.v):
            out.append(Lit([deepterm(P, st, x) for x in p.v]))
        elif isinstance(p, Cat):
            f = p.fam
            if any(isinstance(q, Lit) and not all(isinstance(x, int) or isz(x) for x in q.v) for _, ps in f.alts for q in ps):
                g = Family(f.k, [(gd, deepseq(P, st, Seq(ps)).p) for gd, ps in f.alts], f.facts, f.elen,
                           name='deep:' + f.name, nonempty=f.nonempty)
                out.append(Cat(g, p.lo, p.hi))
            else:
                out.append(p)
        else:
            out.append(p)
    return Seq(out)


def jsonfields(P, t):
    """the JSON members encoding/json uses for a struct type: (key+options, field path, field type)"""
    out = []
    for n, f in enumerate(P.U(t)['fields']):
        tag = re.search(r'json:"((?:[^"\\\\]|\\\\.)*)"', f.get('tag') or '')
        tag = tag.group(1) if tag else ''
        if tag == '-':
            continue
        key, _, opts = tag.partition(',')
        if f['e'] and not key:
            e = f['t']
            if P.T(e)['k'] != 'ptr' and P.U(e)['k'] == 'struct' and not P.T(e).get('json'):
                out += [(k, (n,) + path, ft) for k, path, ft in jsonfields(P, e)]
                continue
        if not f['n'][:1].isupper():
            continue
        out.append(((key or f['n']) + (',' + opts if opts else ''), (n,), f['t']))
    return out


def jsonsig(P, t, depth=0):
    """how encoding/json writes values of this type"""
    T = P.T(t)
    if T.get('json'):
        return T['s'].split('/')[-1]
    u = P.U(t)
    k = u['k']
    if depth > 12:
        return 'deep'
    if k == 'basic':
        return {'byte': 'uint8'}.get(u['name'], u['name'])
    if k == 'slice':
        if P.isbyte(u['elem']) and not P.T(u['elem']).get('json'):
            return 'b64'
        return '[]' + jsonsig(P, u['elem'], depth + 1)
    if k == 'array':
        return '[%d]%s' % (u['len'], jsonsig(P, u['elem'], depth + 1))
    if k == 'ptr':
        return '*' + jsonsig(P, u['elem'], depth + 1)
    if k == 'struct':
        return '{%s}' % ' '.join('%s:%s' % (n, jsonsig(P, ft, depth + 1)) for n, _, ft in jsonfields(P, t))
    if k == 'map':
        return 'map[%s]%s' % (jsonsig(P, u['key'], depth + 1), jsonsig(P, u['elem'], depth + 1))
    return k


def jsonof(P, st, v, t=None):
    """json.Marshal of a value of type t (default: the dynamic type of interface value v)"""
    if t is None:
        if not isinstance(v, Iface) or v.ty is None:
            raise Unsupported('json.Marshal of %r' % (v,))
        t, v = (P.tid[v.ty] if isinstance(v.ty, str) else v.ty), v.v
    while P.U(t)['k'] == 'ptr' and isinstance(v, Ptr) and isinstance(v.obj, (int, ConstObj)) and not P.T(t).get('json'):
        t, v = P.U(t)['elem'], st.load(v)
    sig = jsonsig(P, t)
    if P.U(t)['k'] == 'struct' and isinstance(v, St) and not P.T(t).get('json'):
        vs = []
        for _, path, _ in jsonfields(P, t):
            x = v
            for n in path:
                x = x.f[n]
            vs.append(x)
    else:
        vs = [v]
    return jsonval(P, st, sig, vs)


def jsonval(P, st, sig, vs):
    """the JSON text of a struct with member signature sig and member values vs"""
    t = uf('json:' + sig, [deepterm(P, st, v) for v in vs], U)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 1, l < 2 ** 40))
    return Seq([Sub(t, 0, l)])


def mkjson(P, st, t, name, args):
    """the value json.Unmarshal stores into a zero value of type t: members are named by their keys"""
    if P.U(t)['k'] == 'struct' and not P.T(t).get('json'):
        js = {path: (k, ft) for k, path, ft in jsonfields(P, t)}

        def build(t, path):
            fs = []
            for n, f in enumerate(P.U(t)['fields']):
                p = path + (n,)
                if p in js:
                    k, ft = js[p]
                    fs.append(mkjson(P, st, ft, name + '.' + k.split(',')[0].lower(), args))
                elif any(q[:len(p)] == p for q in js):
                    fs.append(build(f['t'], p))
                else:
                    fs.append(P.zero(st, f['t']))
            return St(t, fs)
        return build(t, ())
    return P.mk(st, t, name, args)


def json_unmarshal(P, st, args, i):
    """either an error (target unspecified) or the target holds a value determined by the text"""
    data, tgt = args
    s = seqof(st, data)
    v = tgt.v if isinstance(tgt, Iface) else tgt
    if not isinstance(v, Ptr) or not isinstance(v.obj, int):
        raise Unsupported('json.Unmarshal target')
    t = st.htype.get(v.obj)
    if not isinstance(t, int):
        raise Unsupported('json.Unmarshal target type')
    for x in v.path:
        t = P.U(t)['fields'][x]['t']
    bt = reifyst(st, s)
    s2 = st.clone()
    st.store(v, mkjson(P, st, t, 'unjson', [bt]))
    st.fact(uf('jsonok', [bt], BOOL))
    s2.store(v, P.fresh(s2, t, 'unjsonbad'))
    return [(st, 'ret', (NILIF,)), (s2, 'ret', (newerr(s2),))]


def b64enc(P, st, args, i):
    s = seqof(st, args[1])
    t = uf('b64', [term(args[0]), reifyst(st, s)], U)
    st.prog.b64_pre[t.get_id()] = (t, term(args[0]), s)
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 40))
    st.fact(uf('unb64', [term(args[0]), t], U) == reify(s))
    if len(s.p) == 1 and isinstance(s.p[0], Sub) and s.p[0].ety is None and eqt(s.p[0].off, 0) is True and \
            st.entails(eqt(uf('len', [s.p[0].atom], INT), s.p[0].len)):
        st.fact(uf('unb64', [term(args[0]), t], U) == s.p[0].atom)
    st.fact(uf('b64ok', [term(args[0]), t], BOOL))
    return (Seq([Sub(t, 0, l)]),)


def b64dec(P, st, args, i):
    s = seqof(st, args[1])
    bt = reifyst(st, s)
    ok = uf('b64ok', [term(args[0]), bt], BOOL)
    if st.decide(ok):
        t = uf('unb64', [term(args[0]), bt], U)
        l = uf('len', [t], INT)
        st.fact(z3.And(l >= 0, l < 2 ** 40))
        return (bytesval(P, st, Seq([Sub(t, 0, l)])), NILIF)
    return (bytesval(P, st, st.fresh_seq('b64part')), newerr(st))


def parse_int(P, st, args, i):
    """strconv.ParseInt(s, 10, 64): value determined by the string, or an error"""
    s = seqof(st, args[0])
    bt = reifyst(st, s)
    if args[1] != 10 or args[2] != 64:
        raise Unsupported('ParseInt base/bits')
    ok = uf('isdec', [bt], BOOL)
    v = uf('undec', [bt], INT)
    if st.decide(ok):
        st.fact(z3.And(v >= -2 ** 63, v < 2 ** 63))
        st.fact(uf('len', [bt], INT) >= 1)
        return (v, NILIF)
    x = st.fresh_int('parseint', -2 ** 63, 2 ** 63 - 1)
    return (x, newerr(st))


def format_int(P, st, args, i):
    if args[1] != 10:
        raise Unsupported('FormatInt base')
    s = decstr(st, args[0])
    t = reify(s)
    st.fact(uf('isdec', [t], BOOL))
    return (s,)


def hex_encode(P, st, args, i):
    return (hexstr(st, seqof(st, args[0])),)


def string_id(P, st, args, i):
    """aws.String and friends: pointer to a fresh copy"""
    v = args[0]
    return (Ptr(st.alloc(v, None)),)


def noop(P, st, args, i):
    return tuple(P.fresh(st, t, 'r') for t in i['results'])


def sha_sum(P, st, args, i):
    return (sha256(st, seqof(st, args[0])),)


def log_fatal(P, st, args, i):
    raise GoPanic('log.Fatal')


def install(P):
    m = P.models
    for n, k in ((1, 'AddUint8'), (2, 'AddUint16'), (3, 'AddUint24'), (4, 'AddUint32'), (6, 'AddUint48'), (8, 'AddUint64')):
        m['(*%sBuilder).%s' % (CB, k)] = cb_adduint(n)
    m['(*%sBuilder).AddBytes' % CB] = cb_addbytes
    for n, k in ((1, 'AddUint8LengthPrefixed'), (2, 'AddUint16LengthPrefixed'), (3, 'AddUint24LengthPrefixed'), (4, 'AddUint32LengthPrefixed')):
        m['(*%sBuilder).%s' % (CB, k)] = cb_prefixed(n)
    m['(*%sBuilder).AddASN1' % CB] = cb_asn1
    m['(*%sBuilder).SetError' % CB] = cb_seterror
    m['(*%sBuilder).Bytes' % CB] = cb_bytes
    m['(*%sBuilder).BytesOrPanic' % CB] = cb_bytespanic
    m[CB + 'NewBuilder'] = cb_new
    for n, k in ((1, 'ReadUint8'), (2, 'ReadUint16'), (3, 'ReadUint24'), (4, 'ReadUint32'), (6, 'ReadUint48'), (8, 'ReadUint64')):
        m['(*%sString).%s' % (CB, k)] = cs_uint(n)
    for n, k in ((1, 'ReadUint8LengthPrefixed'), (2, 'ReadUint16LengthPrefixed'), (3, 'ReadUint24LengthPrefixed')):
        m['(*%sString).%s' % (CB, k)] = cs_prefixed(n)
    m['(*%sString).ReadBytes' % CB] = cs_readbytes
    m['(*%sString).CopyBytes' % CB] = cs_copybytes
    m['(*%sString).Skip' % CB] = cs_skip
    m['(%sString).Empty' % CB] = lambda P, st, a, i: (eqt(a[0].len, 0),)
    P.opaque_types.update([CB + 'Builder', 'strings.Builder', 'time.Time', 'bytes.Buffer', 'sync.Mutex', 'sync.Once',
                           'golang.org/x/sync/errgroup.Group', 'encoding/base64.Encoding'])
    P.zerohooks[CB + 'Builder'] = cb_zero
    P.zerohooks['strings.Builder'] = lambda: St(None, (Seq(),))
    m['(*strings.Builder).WriteString'] = sb_write
    m['(*strings.Builder).Write'] = sb_write
    m['(*strings.Builder).WriteByte'] = sb_writebyte
    m['(*strings.Builder).Grow'] = lambda P, st, a, i: ()
    m['(*strings.Builder).String'] = sb_string
    m['(*strings.Builder).Len'] = lambda P, st, a, i: (st.load(a[0]).f[0].len,)
    for k in ('be', 'le'):
        nm = '(encoding/binary.%sEndian).' % ('big' if k == 'be' else 'little')
        for n in (16, 32, 64):
            m[nm + 'PutUint%d' % n] = put_uint(n // 8, k)
            m[nm + 'Uint%d' % n] = get_uint(n // 8, k)
            m[nm + 'AppendUint%d' % n] = append_uint(n // 8, k)
    m['bytes.Equal'] = bytes_equal
    m['bytes.Compare'] = bytes_compare
    m['bytes.Clone'] = bytes_clone

    def repeat(P, st, a, i):
        s, n = st.content(a[0]) if not isinstance(a[0], Seq) else a[0], a[1]
        if isz(n) or n < 0 or n > 4096:
            raise Unsupported('Repeat of a symbolic count')
        r = Seq()
        c = s.concrete()
        r = Seq([Lit(tuple(c) * n)]) if c is not None else sum([s] * n, Seq())
        return (r if isinstance(a[0], Seq) else P.newslice(st, r),)
    m['bytes.Repeat'] = m['strings.Repeat'] = repeat

    def join(P, st, a, i):
        c = st.content(a[0])
        if any(not isinstance(p, Lit) for p in c.p):
            raise Unsupported('strings.Join of a list of symbolic length')
        r = []
        for n, s in enumerate([x for p in c.p for x in p.v]):
            r += [a[1], s] if n else [s]
        return (sum(r, Seq()),)
    m['strings.Join'] = join
    m['slices.Clone'] = bytes_clone

    def search(P, st, a, i):
        """sort.Search(n, f): r in 0..n with f(r-1) false (or r = 0) and f(r) true (or r = n), whatever f is; f must not write anything
        that was there before. The property of binary search, not a consequence of f being monotone."""
        n, f = a
        r = st.fresh_int('k')
        st.fact(tz(And(ge(n, 0), ge(r, 0), le(r, n))))
        outs = []

        def probe(s, x, want):
            res = []
            for y, kd, v in P.call(s, f, [x], {'results': [P.tid['bool']]}):
                if kd != 'ret':
                    outs.append((y, kd, v))
                    continue
                if any(y.heap.get(o) is not h for o, h in s0.items()):
                    raise Unsupported('a search predicate with side effects')
                b = v[0] if isinstance(v, tuple) else v
                res += [z for z, tv in P.split(y, b) if tv == want]
            return res
        s0 = dict(st.heap)
        # any index may be probed: f must not panic
        s = st.clone()
        x = s.fresh_int('probe')
        s.fact(tz(And(ge(x, 0), lt(x, n))))
        if s.feasible():
            probe(s, x, None)
        for lo, below in P.split(st, gt(r, 0)):
            for mid in (probe(lo, simp(sub(r, 1)), False) if below else [lo]):
                for hi, inside in P.split(mid, lt(r, n)):
                    for z in (probe(hi, r, True) if inside else [hi]):
                        outs.append((z, 'ret', (r,)))
        return outs
    m['sort.Search'] = search
    m['errors.Is'] = err_is
    m['errors.As'] = err_as
    m['errors.New'] = err_new
    m['fmt.Errorf'] = errorf
    m['fmt.Sprintf'] = sprintf
    m['fmt.Sprint'] = lambda P, st, a, i: (st.fresh_seq('sprint'),)
    for n in ('log.Println', 'log.Printf', 'log.Print', 'fmt.Println', 'fmt.Printf'):
        m[n] = noop
    for n in ('log.Fatal', 'log.Fatalf', 'log.Fatalln', 'os.Exit'):
        m[n] = log_fatal
    m['crypto/sha256.Sum256'] = sha_sum
    m['encoding/hex.EncodeToString'] = hex_encode
    m['encoding/json.Marshal'] = json_marshal
    m['encoding/json.Unmarshal'] = json_unmarshal
    m['(*encoding/base64.Encoding).EncodeToString'] = b64enc
    m['(*encoding/base64.Encoding).DecodeString'] = b64dec
    m['strconv.ParseInt'] = parse_int
    m['strconv.FormatInt'] = format_int
    m['strconv.Itoa'] = lambda P, st, a, i: format_int(P, st, [a[0], 10], i)
    m['github.com/aws/aws-sdk-go-v2/aws.String'] = string_id
    m['(time.Time).UnixMilli'] = lambda P, st, a, i: (P.mk(st, i['results'][0], 'unixmilli', [term(a[0])]),)
