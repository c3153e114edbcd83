"""Helpers to write and run function contracts."""
import sys, time
from core import *
import core
import exec as ex
from exec import Program, Outcome, GoPanic
import ext


def new_program(js):
    P = Program(js)
    ext.install(P)
    return P


def run(P, st, fname, args, bindings=()):
    core.SOLVER.reset()
    return P.explore(fname, st, args, bindings)


def forall(P, outs, f):
    """apply f(st, kind, val) on every outcome, exploring every case split"""
    def post(st, o):
        try:
            return f(st, o.kind, o.val)
        except (Infeasible, Fork):
            raise
        except Exception:
            # what a clause of another property that failed would have established
            if st.ghost.get('dropfail'):
                raise Infeasible()
            raise
    was, P.inpost = P.inpost, True
    try:
        for o in outs:
            P.all_paths(o.st, lambda st: post(st, o))
    finally:
        P.inpost = was


def nopanic(P, outs, name):
    """panics are unreachable"""
    res = []
    for o in outs:
        if o.kind == 'panic':
            try:
                P.oblige(o.st, name, False, 'panic reachable: %s' % (o.val,))
            except Infeasible:
                pass
        else:
            res.append(o)
    if not any(o.kind == 'panic' for o in outs):
        P.obls.setdefault(P.prefix + name, {'name': P.prefix + name, 'paths': 0, 'failed': [], 'time': 0.0})['paths'] += 1
    return res


def reach(P, outs, name, cond):
    """non-vacuity: some outcome satisfies cond(st, kind, val) on a feasible path"""
    rec = P.obls.setdefault(P.prefix + name, {'name': P.prefix + name, 'paths': 0, 'failed': [], 'time': 0.0, 'reach': True})
    for o in outs:
        try:
            rs = P.all_paths(o.st, lambda st: (cond(st, o.kind, o.val) and st.feasible()))
        except Infeasible:
            continue
        if any(rs):
            rec['paths'] += 1
            return
    rec['failed'].append({'msg': 'no execution reaches this outcome (vacuous or always failing)', 'status': 'unreachable',
                          'trace': [], 'cond': '', 'model': ''})


def isnil(st, v):
    """formula: interface/pointer value is nil"""
    if isinstance(v, Iface):
        return v.ty is None
    if isinstance(v, SymIface):
        return eqt(v.t, NIL)
    if v is None:
        return True
    if isinstance(v, Ptr):
        if isinstance(v.obj, SymObj):
            return eqt(v.obj.t, NIL)
        return False
    if isinstance(v, SliceV):
        return v.nil
    if isinstance(v, ChanV):
        return eqt(v.t, NIL)
    raise Unsupported('isnil %r' % (v,))


def typeid(P, name):
    return P.tid[name]
