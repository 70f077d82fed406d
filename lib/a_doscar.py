"""DOSCAR (P22): files of specs/Doscar.tla."""
import io
import random

import vp

COLS = {3, 4, 5, 7, 9, 10, 13, 17, 19, 33, 37, 65}


def render(doc, rng):
    """(lines, identifier -> number, header)."""
    lines, nums, head = [], {}, {}
    dims = None
    line = 0
    style = rng.choice(['{:.4E}', '{:.6f}', '{:.8E}', '{:.3f}'])
    for ev in doc[1:]:
        line += 1
        kind = ev['k']
        if kind == 'head':
            if line == 1:
                head['n_ions'] = ev['na']
                head['n_atoms'] = rng.choice([ev['na'], ev['na'], ev['na'] + 2])
                lines.append('%4d%4d%4d%4d' % (head['n_ions'], head['n_atoms'], rng.choice([0, 1]), rng.choice([0, 1])))
            elif line == 2:
                lines.append('  0.1648482E+02  0.4040000E-09  0.4040000E-09  0.4040000E-09  0.1000000E-15')
            elif line == 3:
                lines.append('  1.000000000000000E-004')
            elif line == 4:
                word = rng.choice(['CAR', 'CAR', 'DIR', 'car'])
                head['cartesian'] = word[0] in 'cC'
                lines.append('  ' + word)
            else:
                head['name'] = rng.choice(['unknown system', 'Si8', 'fcc Ni 2 x 2', 'test 1', 'run #3', 'a=b !c', 'Ni  (two  blanks)', '4711', '1.5E0', "'quoted'; name", 'T', '', 'Å'])
                lines.append(rng.choice([' ', '']) + head['name'] + rng.choice(['', ' ', '     ']))
        elif kind == 'dims':
            if dims is None:
                head['n_dos'] = ev['nd']
                texts = ['%.8f' % rng.choice([rng.uniform(5, 20), rng.uniform(5, 20), rng.uniform(-9, -1)]), '%.8f' % rng.choice([rng.uniform(-20, 4), rng.uniform(-20, 4), rng.uniform(20, 30)]), '%d' % ev['nd'], '%.8f' % rng.choice([rng.uniform(-5, 9), rng.uniform(-5, 9), 0.0]), '%.8f' % rng.choice([1.0, 1.0, 0.5])]
                head['emax'], head['emin'], head['efermi'], head['weight'] = (float(texts[i]) for i in (0, 1, 3, 4))
                dims = '     ' + ' '.join(texts)
            lines.append(dims)
        elif kind == 'row':
            row = []
            for col in range(1, ev['n'] + 1):
                value = rng.choice([rng.uniform(-30, 30)] * 9 + [0.0]) if col == 1 else rng.choice([rng.uniform(-2, 50), rng.uniform(0, 1), 0.0])
                text = (rng.choice(['{:.3f}', '{:.8f}']) if col == 1 else style).format(value)
                nums[1000 * line + col] = float(text)
                row.append(text)
            lines.append(rng.choice(['  ', '     ']) + '  '.join(row))
        else:
            lines.append(rng.choice(['', ' ']))
    return lines, nums, head


def table(want, got, nums, what):
    """Difference between a predicted table and a structured array."""
    names = [f['name'] for f in want]
    if list(got.dtype.names) != names:
        return f'{what}: fields {got.dtype.names}, expected {names}'
    for field in want:
        value = [[nums[c] for c in row] if len(row) > 1 else nums[row[0]] for row in field['v']]
        diff = vp.deep(value, got[field['name']], f'{what}[{field["name"]}]', tol=1e-12)
        if diff:
            return diff
    return None


def judge(case):
    from parsevasp.doscar import Doscar
    rng = random.Random(case['salt'])
    doc, exp = case['doc'], case['exp']
    lines, nums, head = render(doc, rng)
    text = '\n'.join(lines) + rng.choice(['\n', '\n', ''])
    with open('DOSCAR', 'w', encoding='utf8') as handle:
        handle.write(text)
    for name, kwargs in (('path', {'file_path': 'DOSCAR'}), ('handle', {'file_handler': io.StringIO(text)})):
        if doc[0]['nc'] or rng.random() < 0.5:
            kwargs['non_collinear'] = doc[0]['nc']
        note = f'({name}, non_collinear={doc[0]["nc"]}) {text}'
        res = vp.call(Doscar, **kwargs)
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': 'accepted a file that should be refused', 'input': note}
            continue
        if res[0] != 'ok':
            return {'bad': f'refused a valid file: {res}', 'input': note}
        dos = res[1]
        diff = vp.deep(head, dict(dos.get_metadata()), 'metadata', tol=1e-13) or table(exp['total'], dos.get_dos(), nums, 'dos')
        if not diff:
            pdos = dos.get_pdos()
            if not exp['hasProj']:
                diff = None if pdos is None or len(pdos) == 0 else f'projections {pdos}'
            elif len(pdos) != len(exp['atoms']):
                diff = f'projections on {len(pdos)} atoms, expected {len(exp["atoms"])}'
            else:
                for atom, want in enumerate(exp['atoms']):
                    diff = diff or table(want, pdos[atom], nums, f'pdos[{atom}]')
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': text[:600], 'nontrivial': not exp['refused']}


def random_file(rng, big=False):
    nc = rng.random() < 0.35
    na, nd = rng.choice([1, 2, 3, 7]), rng.choice([1, 2, 3, 11, 40])
    if big:
        na, nd = rng.choice([(12, 30), (101, 2), (30, 5), (2, 301), (1, 1001)])
    tot = rng.choice([3, 3, 5, 5]) if not nc else 3
    cols = rng.choice([13, 17, 37, 65] if nc else [7, 9, 19, 33] if tot == 5 else [4, 5, 10, 17])
    if rng.random() < 0.05:
        cols = rng.choice([3, 6, 8, 12, 13, 37, 64, 66])
    dims = {'k': 'dims', 'nd': nd}
    doc = [{'k': 'open', 'nc': nc}] + [{'k': 'head', 'na': na if i == 0 else 0} for i in range(5)] + [dims] + [{'k': 'row', 'n': tot}] * nd
    if rng.random() < 0.8:
        for _ in range(na):
            doc += [dims] + [{'k': 'row', 'n': cols}] * nd
        if rng.random() < 0.1:
            doc = doc[:rng.randint(6, len(doc))]
            if len(doc) == 7 + nd:
                doc = doc[:-1]
        elif rng.random() < 0.2:
            doc += [{'k': 'blank'}] * rng.choice([1, 2])
    return doc


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def cases_of(check, records):
    recs = sorted(records, key=lambda r: (len(r['doc']), str(r['doc'])))
    return [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)]


def check_P22(check):
    deep = check.thorough
    if wants(check, 'layouts'):
        res = vp.tlc('Doscar', cfg('SpecMC', MaxAtoms=3 if deep else 2, MaxEnergies=4 if deep else 3, TotalCols='{2, 3, 4, 5, 6}',
                                   ProjCols='{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 18, 19, 25, 33, 36, 37, 38, 64, 65, 66}', Slack=2))
        check.add_tlc(res, 'layouts', True)
        check.run('layouts', cases_of(check, res['records']), judge, 32)
    rng = check.rng('large')
    docs = [random_file(rng, i % 30 == 29) for i in range(2500 if deep else 300)]
    res = vp.tlc_docs('Doscar', docs, cfg('SpecDocs', MaxAtoms=0, MaxEnergies=0, TotalCols='{}', ProjCols='{}', Slack=0))
    check.add_tlc(res, 'large')
    check.run('large', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-l{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge)
