"""P06: every order of requesting lazily computed attributes."""
import itertools, os, pickle
import numpy as np
from mc import *
import co
from pwtools import crys, base, decorators

chk = Check('P06', level='model_checking',
    rule='States are the sets of attributes requested so far; for every way to give the inputs all sequences of requests (attribute x interface) up to a depth are run on a fresh lazily constructed object; after every request each attribute set so far must have its independently derived value. Further: a generic dependency graph over the getter mechanism with all request orders. Non-trivial: at least one requested attribute has to be computed.',
    assumptions=['lazily constructed objects get their units applied before the first request', 'lazy trajectories get time dependent arrays in full length'])

NS, SY = 4, ['O', 'H', 'Al', 'H']
CELL = co.vcells(co.CELLS['tri'], NS)
CCS = np.array([co.cell2cc(c) for c in CELL])
FRAC = np.array([co.gen_frac(4, t) for t in range(NS)])
CART = np.array([co.f2c(f, c) for f, c in zip(FRAC, CELL)])
STRESS = co.gen_arr((NS, 3, 3), 3)
OWN = dict(volume=np.array([17.5, 3.0, 4.0, 5.0]), pressure=np.array([0.5, 0.25, -1.0, 2.0]), stress=STRESS,
           forces=co.gen_arr((NS, 4, 3), 4), etot=co.gen_arr((NS,), 5), velocity=co.gen_arr((NS, 4, 3), 6),
           ekin=co.gen_arr((NS,), 7), temperature=co.gen_arr((NS,), 8), timestep=0.5,
           coords=CART + 1.0, coords_frac=FRAC + 0.5, cell=CELL * 1.5, cryst_const=CCS * 1.01)

# (given names, names given with values of their own that contradict the rest)
CONFS = [(['cell', 'coords'], []), (['cell', 'coords_frac'], []), (['cryst_const', 'coords_frac'], []),
         (['cryst_const', 'coords_frac', 'stress', 'forces', 'etot'], ['volume']),
         (['cell', 'coords', 'stress'], ['pressure', 'cryst_const']),
         (['cell', 'coords'], ['coords_frac', 'volume']),
         (['coords'], []), (['coords_frac', 'stress'], []), (['cell'], [])]
TCONFS = [(['cell', 'coords', 'timestep'], []), (['cryst_const', 'coords_frac', 'timestep', 'stress'], []),
          (['cryst_const', 'coords_frac', 'timestep'], ['velocity']), (['cell', 'coords_frac', 'timestep'], ['ekin', 'volume']),
          (['cell', 'coords', 'timestep'], ['temperature', 'coords_frac']), (['cell', 'coords', 'forces', 'etot'], [])]

def reference(kind, given, own, syms):
    T = kind == 't'
    names = list(given) + list(own)
    src = dict(cell=CELL, cryst_const=CCS, coords=CART, coords_frac=FRAC, stress=STRESS, forces=OWN['forces'], etot=OWN['etot'], timestep=0.5)
    src = {k: src[k] for k in given}
    src.update({k: OWN[k] for k in own})
    e = {k: None for k in ('cell cryst_const coords coords_frac volume stress pressure forces etot'.split())}
    e.update(src)
    if e['cell'] is None and e['cryst_const'] is not None:
        e['cell'] = np.array([co.cc2cell(c) for c in e['cryst_const']])
    if e['cryst_const'] is None and e['cell'] is not None:
        e['cryst_const'] = np.array([co.cell2cc(c) for c in e['cell']])
    if e['coords'] is None and e['coords_frac'] is not None and e['cell'] is not None:
        e['coords'] = np.array([co.f2c(f, c) for f, c in zip(e['coords_frac'], e['cell'])])
    if e['coords_frac'] is None and e['coords'] is not None and e['cell'] is not None:
        e['coords_frac'] = np.array([co.c2f(f, c) for f, c in zip(e['coords'], e['cell'])])
    if e['volume'] is None and e['cell'] is not None:
        e['volume'] = np.array([co.volume(c) for c in e['cell']])
    if e['pressure'] is None and e['stress'] is not None:
        e['pressure'] = np.array([np.trace(s) / 3 for s in e['stress']])
    sa = co.sym_attrs(SY)
    mass = np.array([co.MASS[s] for s in SY])
    have_crd = 'coords' in src or 'coords_frac' in src
    for k, v in sa.items():
        e[k] = v if syms else None
    e['natoms'] = 4 if syms or have_crd else None
    e['mass'] = mass if syms else None
    e['mass_unique'] = np.array([co.MASS[s] for s in sorted(set(SY))]) if syms else None
    if T:
        for k in ('velocity', 'ekin', 'temperature', 'timestep'):
            e.setdefault(k, None)
        e['nstep'] = NS if have_crd else None
        dt = e['timestep']
        e['time'] = np.arange(NS) * dt if dt is not None and have_crd else None
        if e['velocity'] is None and dt is not None and e['coords'] is not None:
            e['velocity'] = co.velocity(e['coords'], dt)
        if e['ekin'] is None and e['velocity'] is not None and syms:
            e['ekin'] = co.ekin(e['velocity'], mass)
        if e['temperature'] is None and e['ekin'] is not None:
            e['temperature'] = co.temperature(e['ekin'], 4)
    else:
        for k in ('cell', 'cryst_const', 'coords', 'coords_frac', 'volume', 'stress', 'pressure', 'forces', 'etot'):
            if e[k] is not None:
                e[k] = e[k][0]
    return e, {k: (v if T or k == 'timestep' else v[0]) for k, v in src.items()}

def build(kind, kw, syms):
    args = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    if syms:
        args['symbols'] = list(SY)
    cls = crys.Trajectory if kind == 't' else crys.Structure
    o = cls(set_all_auto=False, **args)
    o.apply_units()
    return o

def same(got, v):
    if v is None or got is None:
        return got is None and v is None
    if isinstance(v, (list, dict)):
        return got == v
    return close(got, v, rtol=1e-8, atol=1e-8)

IFACE = ['check_set_attr', 'get', 'try_set_attr', 'get_return_attr', 'assert_or_none']

def request(o, name, how, exp):
    if how == 'get':
        got = getattr(o, 'get_' + name)()
        check(same(got, exp[name]), lambda: 'get_%s() returned %s expected %s' % (name, short(repr(got), 200), short(repr(exp[name]), 200)))
    elif how == 'check_set_attr':
        r = o.check_set_attr(name)
        check(r == (exp[name] is not None), 'check_set_attr(%s) is %s' % (name, r))
    elif how == 'try_set_attr':
        o.try_set_attr_lst([name])
        check(o.is_set_attr(name) == (exp[name] is not None), 'is_set_attr(%s)' % name)
    elif how == 'get_return_attr':
        check(same(o.get_return_attr(name), exp[name]), 'get_return_attr(%s)' % name)
    else:
        e = raises(lambda: o.assert_set_attr(name), AssertionError)
        check((e is None) == (exp[name] is not None), 'assert_set_attr(%s)' % name)

def sweep(o, exp, names, what):
    for k in names:
        got = getattr(o, k)
        if got is not None:
            check(same(got, exp[k]), lambda: '%s: %s is %s expected %s' % (what, k, short(repr(got), 300), short(repr(exp[k]), 300)))

def names_of(exp):
    return sorted(exp)

def gen_orders(tier):
    for kind, confs in (('s', CONFS), ('t', TCONFS + CONFS[:6])):
        for ci in range(len(confs)):
            for syms in (True, False):
                given, own = confs[ci]
                exp, _ = reference(kind, given, own, syms)
                for n1 in names_of(exp):
                    yield [kind, ci, syms, n1]

GEO = ['cell', 'cryst_const', 'coords', 'coords_frac', 'volume', 'natoms', 'pressure', 'velocity', 'ekin', 'temperature', 'nstep', 'time',
       'typat', 'nspecies', 'mass', 'order']

@chk.group(gen_orders)
def orders(case, ctx):
    kind, ci, syms, n1 = case
    confs = CONFS if kind == 's' else TCONFS + CONFS[:6]
    given, own = confs[ci]
    exp, kw = reference(kind, given, own, syms)
    names = names_of(exp)
    deep = GEO if TIER == 'quick' else names
    geo = [n for n in deep if n in names] if n1 in deep else []
    plans = [[n1, n2] for n2 in names] + [[n1, n2, n3] for n2 in geo for n3 in geo if len({n1, n2, n3}) == 3]
    if n1 in kw:
        ctx.trivial()
    for pi, plan in enumerate(plans):
        o = build(kind, kw, syms)
        hows = [IFACE[(pi + j * 3 + len(n1)) % len(IFACE)] for j in range(len(plan))] if len(plan) > 2 else None
        if hows is None:
            combos = list(itertools.product(IFACE[:3], repeat=2)) + [(IFACE[3], IFACE[4]), (IFACE[4], IFACE[3])]
            if TIER == 'quick':
                combos = combos[(pi + len(n1)) % 4::4]
        else:
            combos = [hows]
        for hs in combos:
            o = build(kind, kw, syms)
            for n, h in zip(plan, hs):
                request(o, n, h, exp)
            sweep(o, exp, names, 'after %s' % list(zip(plan, hs)))
            o.set_all()
            for k in names:
                check(same(getattr(o, k), exp[k]), lambda: 'after %s and set_all: %s is %s expected %s' % (
                    list(zip(plan, hs)), k, short(repr(getattr(o, k)), 300), short(repr(exp[k]), 300)))
            for k, v in kw.items():
                check(np.array_equal(getattr(o, k), v), 'given %s replaced' % k)
            ctx.eval(); ctx.count('transitions', len(plan) + 1); ctx.count('traces_validated_against_impl')
    ctx.count('states')

# ------------------------------------------------- the mechanism on its own
def gen_graph(tier):
    """all dependency graphs (node i may need a subset of the nodes before
    it in a hidden order) of 4 nodes, with every subset of given nodes"""
    n = 4
    edges = [(i, j) for i in range(n) for j in range(i)]
    for m in range(2 ** len(edges)):
        yield m

@chk.group(gen_graph)
def mechanism(case, ctx):
    n = 4
    edges = [(i, j) for i in range(n) for j in range(i)]
    dep = {i: [j for k, (a, j) in enumerate(edges) if a == i and case >> k & 1] for i in range(n)}
    nm = ['alpha', '_beta', 'gamma', '_delta']
    calls = []
    def mkget(i):
        def get(self):
            calls.append(i)
            if self.check_set_attr_lst([nm[j] for j in dep[i]]):
                if i == 0:
                    return None if self.broken else 1
                return 10 ** i + sum(getattr(self, nm[j]) for j in dep[i])
            return None
        return get
    class G(base.FlexibleGetters):
        def __init__(self, order, given, broken):
            self.broken = broken
            self.set_attr_lst(order)
            for k, v in given.items():
                setattr(self, k, v)
    for i in range(n):
        setattr(G, ('_get' if nm[i][0] == '_' else 'get_') + nm[i], mkget(i))
    if case == 0:
        ctx.trivial()
    for broken in (False, True):
        for gm in range(2 ** n):
            given = {nm[i]: 7000 + i for i in range(n) if gm >> i & 1}
            val = {}
            for i in range(n):
                if nm[i] in given:
                    val[i] = given[nm[i]]
                elif i == 0:
                    val[i] = None if broken else 1
                elif any(val[j] is None for j in dep[i]):
                    val[i] = None
                else:
                    val[i] = 10 ** i + sum(val[j] for j in dep[i])
            for perm in itertools.permutations(range(n)):
                calls.clear()
                o = G([nm[i] for i in perm], given, broken)
                check(o.attr_lst == [nm[i] for i in perm], 'attr_lst')
                for i in perm[:2]:
                    check(o.check_set_attr(nm[i]) == (val[i] is not None), 'check_set_attr')
                o.set_all()
                for i in range(n):
                    check(getattr(o, nm[i]) == val[i], lambda: 'order %s: %s = %s expected %s' % (perm, nm[i], getattr(o, nm[i]), val[i]))
                for i in range(n):
                    if val[i] is not None:
                        check(calls.count(i) == (0 if nm[i] in given else 1), 'getter of %s ran %i times' % (nm[i], calls.count(i)))
                check(o.is_set_attr_lst(nm) == all(v is not None for v in val.values()), 'is_set_attr_lst')
                check((raises(lambda: o.assert_attr_lst(nm), AssertionError) is None) == all(v is not None for v in val.values()), 'assert_attr_lst')
                before = list(calls)
                for i in range(n):
                    if val[i] is not None:
                        check(o.get_return_attr(nm[i]) == val[i], 'get_return_attr')
                check(calls == before, 'computed again')
                # all again from the start
                o.set_attr_lst(list(o.attr_lst))
                check(all(getattr(o, k) is None for k in nm) and not o.is_set_attr_lst(nm), 'set_attr_lst() does not reset')
                calls.clear()
                o.set_all([])
                o.try_set_attr_lst([])
                check(not calls and all(getattr(o, k) is None for k in nm), 'set_all([])')
                one = nm[perm[0]]
                o.set_all([one])
                check(o.is_set_attr(one) == o.check_set_attr_lst([one]), 'set_all of one attribute')
                full = not broken
                if perm == tuple(range(n)) or gm == 0:
                    calls.clear()
                    o.set_attr_lst(list(o.attr_lst))
                    r = o.check_set_attr_lst(nm)
                    check(r == o.is_set_attr_lst(nm) == all(getattr(o, k) is not None for k in nm), 'check_set_attr_lst')
                    check(set(calls) == set(range(n)), 'check_set_attr_lst() tries %s only' % sorted(set(calls)))
                    if r:
                        o.assert_set_attr_lst(nm)
                    else:
                        check(raises(lambda: o.assert_set_attr_lst(nm), AssertionError), 'assert_set_attr_lst')
                ctx.eval(); ctx.count('transitions', 3); ctx.count('traces_validated_against_impl')
    ctx.count('states', 2 ** n)

def gen_raw(tier):
    for axis in (0, 1, 2):
        for sl in range(4):
            for present in (0, 1):
                yield [axis, sl, present]

@chk.group(gen_raw)
def raw_attributes(case, ctx):
    axis, sl, present = case
    sl = [slice(None), slice(0, 1), slice(1, 3), slice(None, None, 2)][sl]
    arr = co.gen_arr((3, 4, 2), 1)
    class R(base.FlexibleGetters):
        n = 0
        def _get_foo_raw(self):
            R.n += 1
            return arr if present else None
        def get_foo(self):
            return self.raw_slice_get('foo', sl=sl, axis=axis)
        def get_bar(self):
            return self.raw_return('foo')
    for order in itertools.permutations(['foo', 'bar', '_foo_raw']):
        R.n = 0
        o = R(); o.set_attr_lst(list(order)); o.set_all()
        if present:
            ix = [slice(None)] * 3; ix[axis] = sl
            check(np.array_equal(o.foo, arr[tuple(ix)]) and np.array_equal(o.bar, arr), 'raw')
            check(R.n == 1, 'raw data read %i times' % R.n)
        else:
            check(o.foo is None and o.bar is None, 'missing raw')

@chk.group(lambda tier: [list(p) for p in itertools.permutations(range(3))])
def lazyprop(case, ctx):
    calls = []
    class A:
        def __init__(self, x): self.x = x
        @decorators.lazyprop
        def one(self): calls.append(1); return self.x + 1
        @decorators.lazyprop
        def two(self): calls.append(2); return self.one * 2
        @decorators.lazyprop
        def three(self): calls.append(3); return (self.two, self.one)
        @decorators.lazyprop
        def none(self): calls.append(0)
    a, b = A(1), A(10)
    for rep in range(2):
        for i in case:
            n = ['one', 'two', 'three'][i]
            for o, x in ((a, 1), (b, 10)):
                check(getattr(o, n) == [x + 1, 2 * x + 2, (2 * x + 2, x + 1)][i], 'lazyprop ' + n)
        check(a.none is None and b.none is None, 'lazyprop none')
    check(sorted(calls) == [0, 0, 1, 1, 2, 2, 3, 3], 'computed %s' % calls)
