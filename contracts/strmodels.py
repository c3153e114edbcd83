"""Contracts of the strings functions over line-structured text.

A text is a sequence of pieces; nlcount(a) is the number of newlines of an opaque piece a. wfext(a) says that a is empty or
a sequence of non-empty lines each terminated by a newline."""
from verify import *
import core

NL = 10


def nlcount(st, p):
    """number of newlines of a piece"""
    if isinstance(p, Lit):
        if any(isz(x) for x in p.v):
            raise Unsupported('newlines of symbolic bytes')
        return sum(1 for x in p.v if x == NL)
    if isinstance(p, Sub) and p.ety is None:
        whole(st, p)
        n = uf('nlcount', [p.atom], INT)
        st.fact(z3.And(n >= 0, n <= uf('len', [p.atom], INT)))
        if p.atom.decl().name() in ('decstr', 'b64', 'hexstr', 'cuth'):
            st.fact(n == 0)
        return n
    raise Unsupported('newlines of %r' % (p,))


def whole(st, p):
    if not st.entails(And(eqt(p.off, 0), eqt(uf('len', [p.atom], INT), p.len))):
        raise Unsupported('lines of a slice of an opaque string')


def wfext(st, a):
    w = uf('wfext', [a], BOOL)
    st.fact(z3.Implies(uf('len', [a], INT) == 0, w))
    return w


def aseq(st, t):
    l = uf('len', [t], INT)
    st.fact(z3.And(l >= 0, l < 2 ** 40))
    return Seq([Sub(t, 0, l)])


def cut(st, s):
    """(before, after) at the first newline, or None"""
    ps = list(s.p)
    for n, p in enumerate(ps):
        c = nlcount(st, p)
        if isinstance(p, Lit):
            if c:
                j = list(p.v).index(NL)
                return Seq(ps[:n] + [Lit(p.v[:j])] if j else ps[:n]), Seq(([Lit(p.v[j + 1:])] if j + 1 < len(p.v) else []) + ps[n + 1:])
            continue
        if st.decide(c > 0):
            h, t = uf('cuth', [p.atom], core.U), uf('cutt', [p.atom], core.U)
            hs, ts = aseq(st, h), aseq(st, t)
            st.fact(uf('nlcount', [h], INT) == 0)
            st.fact(c == 1 + uf('nlcount', [t], INT))
            st.fact(uf('len', [p.atom], INT) == 1 + hs.len + ts.len)
            st.fact(wfext(st, p.atom) == z3.And(hs.len > 0, wfext(st, t)))
            linefacts(st, p.atom), linefacts(st, t)
            st.fact(uf('endsnl', [p.atom], BOOL) == z3.Or(ts.len == 0, uf('endsnl', [t], BOOL)))
            st.fact(uf('startsnl', [p.atom], BOOL) == (hs.len == 0))
            st.fact(uf('nlnl', [p.atom], BOOL) == z3.Or(uf('startsnl', [t], BOOL), uf('nlnl', [t], BOOL)))
            return Seq(ps[:n]) + hs, ts + Seq(ps[n + 1:])
        # no newline: only the empty text is made of terminated lines
        st.fact(wfext(st, p.atom) == (uf('len', [p.atom], INT) == 0))
    return None


def cutsub(st, p, r):
    """the parts of an opaque text cut at its first newline, when r is the position of or after that newline"""
    if p.ety is not None or isz(p.off) or p.off != 0:
        return None
    h, t = uf('cuth', [p.atom], core.U), uf('cutt', [p.atom], core.U)
    l = uf('len', [h], INT)
    if eqt(r, l) is True:
        return aseq(st, h), Seq([Lit((NL,))]) + aseq(st, t)
    if eqt(r, add(l, 1)) is True:
        return aseq(st, h) + Seq([Lit((NL,))]), aseq(st, t)
    return None


def isnl(s):
    if s.concrete() != b'\n':
        raise Unsupported('separator %r' % (s,))


def strlist(P, st, vs, i):
    return P.newslice(st, Seq([Lit(tuple(vs))]) if vs else Seq(), et=P.U(i['results'][0])['elem'])


def split_n(P, st, args, i):
    isnl(args[1])
    n = args[2]
    if isz(n) or n < 1:
        raise Unsupported('SplitN count')
    out, rest = [], args[0]
    while len(out) < n - 1:
        r = cut(st, rest)
        if r is None:
            break
        out.append(r[0])
        rest = r[1]
    return (strlist(P, st, out + [rest], i),)


def str_cut(P, st, args, i):
    isnl(args[1])
    r = cut(st, args[0])
    if r is None:
        return (args[0], Seq(), False)
    return (r[0], r[1], True)


def str_count(P, st, args, i):
    isnl(args[1])
    return (add(0, *[nlcount(st, p) for p in args[0].p]),)


def linefacts(st, a):
    """an opaque text is empty or made of non-empty terminated lines iff it is empty, or ends with a newline, does not start
    with one and has no two in a row"""
    l = uf('len', [a], INT)
    n = uf('nlcount', [a], INT)
    e, s, d = [uf(f, [a], BOOL) for f in ('endsnl', 'startsnl', 'nlnl')]
    st.fact(z3.And(n >= 0, n <= l))
    st.fact(z3.Implies(z3.Or(e, s), n > 0))
    st.fact(z3.Implies(d, n > 1))
    st.fact(wfext(st, a) == z3.Or(l == 0, z3.And(e, z3.Not(s), z3.Not(d))))
    return s, e, d


def starts_nl(st, s):
    for p in s.p:
        if isinstance(p, Lit):
            if p.v:
                return eqt(p.v[0], NL)
            continue
        nlcount(st, p)
        if not st.decide(uf('len', [p.atom], INT) > 0):
            continue
        return linefacts(st, p.atom)[0]
    return False


def has_prefix_nl(P, st, args, i):
    isnl(args[1])
    return (starts_nl(st, args[0]),)


def nlnl(st, s):
    """does the text have two newlines in a row?"""
    r = []
    for n, p in enumerate(s.p):
        if isinstance(p, Lit):
            r += [z3.BoolVal(True)] if any(x == y == NL for x, y in zip(p.v, p.v[1:])) else []
        else:
            nlcount(st, p)
            r.append(linefacts(st, p.atom)[2])
        if n:
            r.append(z3.And(ends_nl(st, Seq(s.p[:n])), starts_nl(st, Seq(s.p[n:]))))
    return z3.Or(*r) if r else False


def ends_nl(st, s):
    for p in reversed(s.p):
        if isinstance(p, Lit):
            return eqt(p.v[-1], NL) if p.v else False
        nlcount(st, p)
        if not st.decide(uf('len', [p.atom], INT) > 0):
            continue
        return linefacts(st, p.atom)[1]
    return False


def has_suffix(P, st, args, i):
    isnl(args[1])
    return (ends_nl(st, args[0]),)


def contains_char(st, s, c):
    return uf('contains:%d' % c, [core.reifyst(st, s)], BOOL)


def str_contains(P, st, args, i):
    c = args[1].concrete()
    if c == b'\n\n':
        return (nlnl(st, args[0]),)
    if c is None or len(c) != 1:
        raise Unsupported('strings.Contains')
    return (contains_char(st, args[0], c[0]),)


def str_byte(P, st, args, i):
    if isz(args[1]):
        raise Unsupported('IndexByte')
    if args[1] == NL:
        r = cut(st, args[0])
        return (-1 if r is None else r[0].len,)
    b = contains_char(st, args[0], args[1])
    v = uf('index:%d' % args[1], [core.reifyst(st, args[0])], INT)
    st.fact(z3.And(v >= -1, (v >= 0) == b))
    return (v,)


def first_space(st, s):
    v = uf('firstspace', [core.reifyst(st, s)], INT)
    st.fact(v >= -1)
    return v


def index_func(P, st, args, i):
    f = args[1]
    if isinstance(f, Clo) and f.fn == 'unicode.IsSpace':
        return (first_space(st, args[0]),)
    raise Unsupported('IndexFunc predicate')


def install_strings(P):
    m = P.models
    m['strings.SplitN'] = split_n
    m['strings.Index'] = lambda P, st, a, i: (isnl(a[1]), str_byte(P, st, [a[0], NL], i))[1]
    P.cutsub = cutsub
    m['strings.Cut'] = str_cut
    m['strings.Count'] = str_count
    m['strings.HasSuffix'] = has_suffix
    m['strings.HasPrefix'] = has_prefix_nl
    m['strings.Contains'] = str_contains
    m['strings.ContainsRune'] = lambda P, st, a, i: (contains_char(st, a[0], a[1]),)
    m['strings.IndexByte'] = str_byte
    m['strings.IndexRune'] = str_byte
    m['strings.IndexFunc'] = index_func
    m['strings.ContainsFunc'] = lambda P, st, a, i: (index_func(P, st, a, i)[0] >= 0,)
    m['unicode/utf8.ValidString'] = lambda P, st, a, i: (uf('utf8ok', [core.reifyst(st, a[0])], BOOL),)
