"""Scenarios: a transformation of a symbolic problem together with the mapper it registers."""
from ..common import *


class Sc:
    """one transformation applied to a symbolic problem and a symbolic trajectory of the old problem"""
    pass


def base(prog, **kw):
    s = Sc()
    s.prog = prog
    s.I = interp(prog)
    s.st = State()
    s.P = problem(s.I, s.st, **kw)
    return s


def snap(s):
    I, st, P = s.I, s.st, s.P
    s.S0 = plist(I, st, P, 'states')
    s.U0 = plist(I, st, P, 'controls')
    s.P0 = plist(I, st, P, 'parameters')
    s.Q0 = plist(I, st, P, 'quads')
    s.C0 = plist(I, st, P, 'costates')
    s.K0 = plist(I, st, P, 'constants')
    s.tv0 = I.read(st, I.read(st, P, 'independent_variable'), 'sym')
    s.tvn0 = I.read(st, I.read(st, P, 'independent_variable'), 'name')
    s.usym0 = field(I, st, s.U0, 'sym')
    s.N = sym('N', 'nat')


def traj(s, **over):
    d = dict(N=s.N, y=slen(s.S0), u=slen(s.U0), q=slen(s.Q0), dual=slen(s.S0),
             dynamical_parameters=slen(s.P0), const=slen(s.K0), dual_u=None)
    d.update(over)
    s.sol = trajectory(s.I, s.st, **d)
    return s.sol


def apply(s, name, *args):
    I, st = s.I, s.st
    s.where = where(s.prog, find_class(s.prog, MF, name))
    n0 = slen(plist(I, st, s.P, 'sol_map_chain'))
    fn = functor(I, st, name, *args)
    s.R = transform(I, st, fn, s.P)
    s.added = sub(slen(plist(I, st, s.P, 'sol_map_chain')), n0)
    s.mapper = mapper_of(I, st, s.P)
    return s


def lookup_row(s, structs, k, dual=False):
    """values, at time k, of the symbols of `structs` under the old trajectory"""
    I, st, sol = s.I, s.st, s.sol
    y, u, t = at(arr(sol, 'y'), k), at(arr(sol, 'u'), k), at(arr(sol, 't'), k)
    if dual:
        y, t = at(arr(sol, 'dual'), k), at(arr(sol, 'dual_t'), k)

    def go(x):
        if x.op == 'cat':
            gs = [go(g) for g in x.args]
            return None if any(g is None for g in gs) else cat(*gs)
        if x is s.S0:
            return y
        if x is s.U0:
            return u
        if x.op == 'insat':
            b = go(x.args[0])
            v = go(seq(x.args[2]))
            if b is None or v is None or v.op != 'seq':
                return None
            return insat(b, x.args[1], v.args[0])
        if x.op == 'seq':
            out = []
            for e in x.args:
                sy = I.read(st, e, 'sym')
                if s.S0.op == 'seq' and e in s.S0.args:
                    out.append(at(y, num(s.S0.args.index(e))))
                elif s.usym0.op == 'seq' and sy in s.usym0.args:
                    out.append(at(u, num(s.usym0.args.index(sy))))
                elif sy is s.tv0 or I.read(st, e, 'name') is s.tvn0:
                    out.append(t)
                else:
                    return None
            return seq(*out)
        if x.op == 'tab':
            n, b, body = open_binder(x)
            sy = I.read(st, body, 'sym')
            if n is slen(s.U0) and sy is at(s.usym0, b):
                return tab(n, b, at(u, b))
            if n is slen(s.S0) and body is at(s.S0, b):
                return y
        return None
    r = go(structs)
    return r
