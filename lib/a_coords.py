"""Coordinate frames (P27): conversion histories of specs/Coords.tla."""
import math
import random

import numpy as np

import vp


def shaped(rng, vector):
    """The vector as some sequence."""
    return rng.choice([list, tuple, np.array, np.array])(vector)


def judge(case):
    from parsevasp import utils
    exp = case['exp']
    rng = random.Random(case['salt'])
    # every axis gets its own length, so that the Cartesian components can not be mistaken for one another
    axes = [rng.choice([1.0, rng.uniform(0.3, 9.0)]) for _ in range(3)] if rng.random() < 0.7 else [1.0] * 3
    lattice = np.array([[x * a for x, a in zip(row, axes)] for row in exp['lat']], dtype=float)
    note = f'lattice {lattice.tolist()} start {exp["start"]}'

    def real(point):
        values = [v / point['d'] for v in point['v']]
        return [v * a for v, a in zip(values, axes)] if point['f'] == 'cart' else values
    point = real(exp['start'])
    if exp['singular']:
        if [0, 0, 0] not in exp['lat']:
            return {'nontrivial': False, 'traces': 0}   # rounding may make it regular
        for what, res in (('direct coordinates', vp.call(utils.cart_to_dir, point, lattice)), ('reciprocal lattice', vp.call(utils.lat_to_reclat, lattice))):
            if res[0] == 'ok' and np.isfinite(np.asarray(res[1], dtype=float)).all():
                return {'bad': f'{what} {res[1]} in a cell without volume', 'input': note}
        return {'nontrivial': False}
    given = lattice.copy()
    rows = shaped(rng, lattice.tolist())
    if axes == [1.0] * 3 and rng.random() < 0.7:
        rows = shaped(rng, exp['lat'])   # whole numbers
    extra = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(rng.choice([0, 0, 2]))]
    current = [point] + extra if extra else point
    for step in exp['hist']:
        func = utils.dir_to_cart if step['f'] == 'cart' else utils.cart_to_dir
        arg = np.array(current) if extra else shaped(rng, current)
        kept = np.array(arg)
        res = vp.call(func, arg, rows)
        if res[0] != 'ok':
            return {'bad': f'{func.__name__} failed: {res}', 'input': note}
        diff = vp.deep(real(step), (res[1][0] if extra else res[1]), func.__name__, tol=1e-9)
        if diff or not np.array_equal(kept, np.array(arg)) or not np.array_equal(given, np.array(rows)):
            return {'bad': diff or f'{func.__name__} changed its arguments', 'input': note}
        current = np.array(res[1]).tolist()
    res = vp.call(utils.lat_to_reclat, rows)
    if res[0] != 'ok':
        return {'bad': f'reciprocal lattice refused: {res}', 'input': note}
    want = [[2 * math.pi * x / a / exp['det'] for x, a in zip(row, axes)] for row in exp['dual']]
    diff = vp.deep(want, res[1], 'reciprocal', tol=1e-9)
    if not diff and not np.array_equal(given, np.array(rows)):
        diff = 'the lattice changed'
    return {'bad': diff, 'input': note} if diff else {'input': note}


def structure(case):
    """The same history on a structure: what the public classes report of the point in either frame."""
    from parsevasp.poscar import Poscar, Site
    exp = case['exp']
    rng = random.Random(case['salt'])
    if exp['singular'] or not exp['hist']:
        return {'nontrivial': False, 'traces': 0}
    axes = [rng.uniform(0.3, 9.0) for _ in range(3)] if rng.random() < 0.7 else [1.0] * 3
    lattice = np.array([[x * a for x, a in zip(row, axes)] for row in exp['lat']], dtype=float)
    if axes == [1.0] * 3 and rng.random() < 0.7:
        lattice = np.array(exp['lat'])   # whole numbers

    def real(point):
        values = [v / point['d'] for v in point['v']]
        return np.array([v * a for v, a in zip(values, axes)] if point['f'] == 'cart' else values)
    points = {p['f']: real(p) for p in [exp['start']] + exp['hist'][:1]}
    direct = exp['start']['f'] == 'direct'
    note = f'lattice {lattice.tolist()} start {exp["start"]}'
    poscar = vp.call(Poscar, poscar_dict={'comment': 'c', 'unitcell': lattice.copy(),
                                          'sites': [Site('Si', points[exp['start']['f']].copy(), direct=direct)]})
    if poscar[0] != 'ok':
        return {'bad': f'refused a structure: {poscar}', 'input': note}
    for frame in rng.choice([('cart', 'direct'), ('direct', 'cart'), ('cart', 'cart', 'direct')]):
        res = vp.call(poscar[1].get_dict, direct=frame == 'direct')
        if res[0] != 'ok':
            return {'bad': f'{frame} coordinates failed: {res}', 'input': note}
        diff = (vp.deep(points[frame].tolist(), res[1]['sites'][0]['position'], f'{frame} position', tol=1e-9)
                or vp.deep(lattice.tolist(), res[1]['unitcell'], 'lattice', tol=1e-12))
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': note}


def random_cell(rng):
    lat = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(3)]
    if rng.random() < 0.1:
        lat[rng.randrange(3)] = [0, 0, 0]
    return {'lat': lat, 'num': [rng.randint(-20, 20) for _ in range(3)], 'den': rng.choice([1, 2, 7, 10, 16]), 'frame': rng.choice(['direct', 'cart'])}


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def check_P27(check):
    deep = check.thorough
    if check.replay is None or check.replay.get('group') in ('cells', 'cells-structure'):
        res = vp.tlc('Coords', cfg('SpecMC', Max=1, Points=5 if deep else 2, MaxSteps=3))
        check.add_tlc(res, 'cells', True)
        recs = sorted(res['records'], key=str)
        if not deep:
            recs = recs[::3]
        check.run('cells', [dict(exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)], judge, 64)
        check.run('cells-structure', [dict(exp=r['exp'], salt=f'{check.seed}-s{i}') for i, r in enumerate(recs[::4])], structure, 64)
    rng = check.rng('large')
    docs = [random_cell(rng) for _ in range(3000 if deep else 600)]
    res = vp.tlc_docs('Coords', docs, cfg('SpecDocs', Max=0, Points=0, MaxSteps=4))
    check.add_tlc(res, 'large')
    check.run('large', [dict(exp=r['exp'], salt=f'{check.seed}-l{i}') for i, r in enumerate(res['records'])], judge, 32)
    check.run('large-structure', [dict(exp=r['exp'], salt=f'{check.seed}-ls{i}') for i, r in enumerate(res['records'])], structure, 32)
