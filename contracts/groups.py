"""Model of golang.org/x/sync/errgroup for fork/join code (a trusted contract).

Go runs the closure (its effects are those of some interleaving; the captured cells are handed off until Wait, so a later
write to one of them is reported); Wait returns nil exactly when every closure returned nil."""
from verify import *
from spec import *
from iomodels import rec, nn
import core
import exec as ex

EG = 'golang.org/x/sync/errgroup.'


def install_errgroup(P):
    m = P.models

    def withctx(P, st, args, i):
        g = Ptr(SymObj(nn(st, 'group'), P.tid[EG + 'Group']))
        return (g, SymIface(nn(st, 'gctx')))

    def go(P, st, args, i):
        clo = args[1]
        outs = []
        for b in getattr(clo, 'bindings', ()):
            if isinstance(b, Ptr) and isinstance(b.obj, int):
                st.freeze(b, None, None)
        for x in P.call(st, clo, [], {'results': [P.tid['error']]}):
            o = ex.Outcome(*x)
            if o.kind != 'ret':
                outs.append((o.st, 'panic', o.val))
                continue
            e = o.val[0] if isinstance(o.val, tuple) else o.val
            k = gkey(args[0])
            o.st.ghost[k] = (o.st.ghost.get(k) or Seq()) + unit(Opaque(term(e), None))
            outs.append((o.st, 'ret', ()))
        return outs

    def wait(P, st, args, i):
        s2 = st.clone()
        st.ghost['gnil'] = (st.ghost.get('gnil') or Seq()) + (st.ghost.get(gkey(args[0])) or Seq())
        e = core.SymIface(s2.fresh_u('gerr'), P.tid['error'])
        s2.fact(e.t != NIL)
        s2.ghost['gerr'] = True
        return [(st, 'ret', (NILIF,)), (s2, 'ret', (e,))]
    m[EG + 'WithContext'] = withctx
    m['(*%sGroup).Go' % EG] = go
    m['(*%sGroup).Wait' % EG] = wait


def gkey(g):
    return 'gerrs:%s' % (g.obj,) if isinstance(g, Ptr) else 'gerrs:?'


def unit(v):
    return Seq([Lit([v])])
