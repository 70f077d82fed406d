"""CHGCAR (P24): files of specs/Chgcar.tla."""
import io
import random

import vp


def number(rng):
    return rng.choice(['%.11E', '%.5E', '%.4f'])


def render(doc, rng):
    """(text, identifier -> number)."""
    lines, nums = [], {}
    style = rng.choice(['%.11E', '%.11E', '%.5E', '%.6f'])
    width = rng.choice(['%5d%5d%5d', '%4d%4d%4d', ' %d %d %d'])
    gridline = None
    dens = 0
    blank = ''
    for ev in doc:
        kind = ev['k']
        if kind == 'head':
            lines.append(rng.choice(['Ni', 'unknown system', 'augmented', '', 'test 1 2 3']))
            lines.append('   %.14f' % (ev['scale'] / 2))
            lines += ['  ' + ' '.join('%11.6f' % (x / 2) for x in vec) for vec in ev['lat']]
            atoms = rng.choice([1, 2, 3])
            if rng.random() < 0.9:
                lines.append('   Ni')
            lines.append('  %4d' % atoms)
            lines.append('Direct')
            lines += ['  ' + ' '.join('%9.6f' % rng.random() for _ in range(3)) for _ in range(atoms)]
        elif kind == 'blank':
            lines.append(rng.choice([blank, blank, ' ']))
        elif kind == 'grid':
            if gridline is None:
                gridline = width % tuple(ev['n']) + rng.choice(['', '', ' '])
            lines.append(gridline)
            dens += 1
            count = 0
        elif kind == 'data':
            todo = ev['n']
            for first in range(0, todo, 5):
                row = []
                for _ in range(min(5, todo - first)):
                    count += 1
                    text = style % rng.choice([rng.uniform(-90, 90), rng.uniform(0, 2000), rng.uniform(-0.01, 0.01), 0.0])
                    nums[1000000 * dens + count] = float(text)
                    row.append(text)
                lines.append(' ' + ' '.join(row))
        elif kind == 'aug':
            lines.append('augmentation occupancies' + rng.choice(['   1  33', '', '  12   8', ' (imaginary part)   1  4']))
        elif kind == 'other':
            for _ in range(rng.choice([1, 2])):
                lines.append('  ' + '  '.join('%.7E' % rng.uniform(-9, 9) for _ in range(rng.choice([1, 2, 5]))))
        else:
            lines.append(' ' + ' '.join(['*' * 17] * rng.choice([1, 2])))
    return '\n'.join(lines) + rng.choice(['\n', '\n', '', '\n\n', '\n \n\n']), nums


def judge(case):
    from parsevasp.chgcar import Chgcar
    rng = random.Random(case['salt'])
    exp = case['exp']
    text, nums = render(case['doc'], rng)
    with open('CHGCAR', 'w', encoding='utf8') as handle:
        handle.write(text)
    for name, kwargs in (('path', {'file_path': 'CHGCAR'}), ('handle', {'file_handler': io.StringIO(text)})):
        note = f'({name}) {text}'
        res = vp.call(Chgcar, **kwargs)
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': 'accepted a file that should be refused', 'input': note}
            continue
        if res[0] != 'ok':
            return {'bad': f'refused a valid file: {res}', 'input': note}
        volume = exp['volume'] / 64
        want = {n: [[[nums[c] / volume for c in y] for y in z] for z in grid] for n, grid in zip(exp['names'], exp['grid'])}
        charge, mag = res[1].charge_density, res[1].magnetization_density
        diff = vp.deep(want['charge'], charge, 'charge[z][y][x]', tol=1e-10)
        if not diff:
            if len(want) == 1:
                diff = None if mag is None else f'magnetization {mag} in a file without'
            elif len(want) == 2:
                diff = vp.deep(want['magnetization'], mag, 'magnetization[z][y][x]', tol=1e-10)
            else:
                del want['charge']
                diff = vp.deep(want, mag, 'magnetization', tol=1e-10)
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': text[:600], 'nontrivial': not exp['refused']}


def random_file(rng):
    while True:
        lat = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(3)]
        a, b, c = lat
        if a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]) != 0:
            break
    n = [rng.choice([1, 2, 3, 4, 5, 6, 7, 11]) for _ in range(3)]
    if rng.random() < 0.2:
        n = [n[0], n[0], n[0]]
    doc = [{'k': 'head', 'lat': lat, 'scale': rng.randint(1, 12)}, {'k': 'blank'}]
    paw = rng.random() < 0.7
    for dens in range(rng.choice([1, 1, 2, 2, 2, 4, 4, 4, 3, 5])):
        doc.append({'k': 'grid', 'n': n})
        total = n[0] * n[1] * n[2]
        if rng.random() < 0.04:
            total += rng.choice([-1, 1, n[0], -total])
        doc.append({'k': 'data', 'n': total})
        if rng.random() < 0.03:
            doc.append({'k': 'junk'})
        if paw:
            for _ in range(rng.choice([1, 2, 4])):
                doc += [{'k': 'aug'}, {'k': 'other'}]
            if rng.random() < 0.5:
                doc.append({'k': 'other'})
    return [e for e in doc if e['k'] != 'data' or e['n'] > 0]


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def check_P24(check):
    deep = check.thorough
    if wants(check, 'small'):
        res = vp.tlc('Chgcar', cfg('SpecMC', Size=2 if deep else 1, MaxSets=5, PerLine=5, Damage='TRUE'))
        check.add_tlc(res, 'small', True)
        recs = sorted(res['records'], key=lambda r: (len(r['doc']), str(r['doc'])))
        check.run('small', [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)], judge, 32)
    rng = check.rng('large')
    docs = [random_file(rng) for _ in range(2500 if deep else 300)]
    res = vp.tlc_docs('Chgcar', docs, cfg('SpecDocs', Size=0, MaxSets=0, PerLine=0, Damage='FALSE'))
    check.add_tlc(res, 'large')
    check.run('large', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-l{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge)
