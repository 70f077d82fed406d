"""EIGENVAL (P23): files of specs/Eigenval.tla."""
import io
import random

import vp


def render(doc, rng):
    """(lines, identifier -> number, header)."""
    lines, nums, head = [], {}, {}
    form = rng.choice(['{:14.6f}', '{:12.4f}', ' {:.7E}'])
    for number, ev in enumerate(doc, 1):
        kind = ev['k']
        if kind == 'ints':
            row = [ev['na'], rng.choice([ev['na'], ev['na'] + 1]), rng.choice([0, 1, 40]), ev['ns']]
            head.update({0: row, 'n_ions': row[0], 'n_atoms': row[1], 'p00': row[2], 'nspin': row[3]})
            lines.append(''.join('%5d' % n for n in row))
        elif kind == 'five':
            texts = ['%.7E' % rng.choice([rng.uniform(0, 99), rng.uniform(0, 99), 0.0]) for _ in range(5)]
            head[1] = [float(t) for t in texts]
            lines.append('  ' + '  '.join(texts))
        elif kind == 'one':
            text = rng.choice(['1.000000000000000E-004', '0.001', '300.0'])
            head[2] = float(text)
            lines.append('  ' + text)
        elif kind == 'word':
            word = rng.choice(['CAR', 'CAR', 'DIR', 'car', 'Direct'])
            head['cartesian'] = word[0] in 'cC'
            lines.append('  ' + word)
        elif kind == 'name':
            head['name'] = rng.choice(['unknown system', 'Si8', 'fcc Ni 2 x 2', 'C', '12 1 10', '', 'α-Ni'])
            lines.append(rng.choice([' ', '']) + head['name'] + rng.choice(['', '    ']))
        elif kind == 'dims':
            head.update({'some_num': rng.choice([8, 12, 1]), 'n_kp': ev['nk'], 'n_bands': ev['nb']})
            lines.append('%7d%7d%7d' % (head['some_num'], ev['nk'], ev['nb']))
        elif kind == 'blank':
            lines.append(rng.choice(['', '', ' ', '    ']))
        elif kind == 'kpt':
            texts = ['%.7E' % rng.choice([0.0, rng.uniform(-0.5, 0.5), rng.uniform(0, 1)]) for _ in range(3)]
            texts.append('%.7E' % rng.choice([rng.uniform(0, 1), rng.uniform(0, 1), 1.0, rng.uniform(1, 48)]))
            nums.update({1000 * number + c: float(t) for c, t in enumerate(texts, 1)})
            lines.append('  ' + '  '.join(texts))
        elif kind == 'band':
            texts = [form.format(rng.choice([rng.uniform(-60, 60)] * 9 + [0.0])) for _ in range(ev['n'])]
            nums.update({1000 * number + c: float(t) for c, t in enumerate(texts, 2)})
            lines.append('%5d  ' % ev['b'] + ' '.join(texts))
        else:
            lines.append('    1  ' + rng.choice(['**************  1.0', '************** **************']))
    return lines, nums, head


def judge(case):
    from parsevasp.eigenval import Eigenval
    rng = random.Random(case['salt'])
    doc, exp = case['doc'], case['exp']
    lines, nums, head = render(doc, rng)
    text = '\n'.join(lines) + rng.choice(['\n', '\n', ''])
    with open('EIGENVAL', 'w', encoding='utf8') as handle:
        handle.write(text)
    for name, kwargs in (('path', {'file_path': 'EIGENVAL'}), ('handle', {'file_handler': io.StringIO(text)})):
        note = f'({name}) {text}'
        res = vp.call(Eigenval, **kwargs)
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': 'accepted a file that should be refused', 'input': note}
            continue
        if res[0] != 'ok':
            return {'bad': f'refused a valid file: {res}', 'input': note}
        real = res[1]
        want = [[[nums[c] for c in kp] for kp in spin] for spin in exp['ev']]
        diff = (vp.deep(head, dict(real.get_metadata()), 'metadata', tol=1e-13)
                or vp.deep(want, real.get_eigenvalues(), 'eigenvalues[spin][k][band]', tol=1e-12)
                or vp.deep([[nums[c] for c in kp] for kp in exp['kp']], real.get_kpoints(), 'kpoints', tol=1e-12))
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': text[:600], 'nontrivial': not exp['refused']}


def random_file(rng, big=False):
    ns, nk, nb = rng.choice([1, 2]), rng.choice([1, 2, 3, 10, 25]), rng.choice([1, 2, 4, 9, 30])
    if big:
        nk, nb = rng.choice([(101, 4), (1, 1001), (3, 101), (120, 2), (1100, 1)])
    width = rng.choice([ns, 2 * ns])
    doc = [{'k': 'ints', 'na': rng.choice([1, 2, 8, 120]), 'ns': ns}, {'k': 'five'}, {'k': 'one'}, {'k': 'word'}, {'k': 'name'},
           {'k': 'dims', 'nk': nk, 'nb': nb}]
    body = []
    for _ in range(nk):
        body += [{'k': 'blank'}] * rng.choice([1, 1, 1, 2, 3]) + [{'k': 'kpt'}]
        order = list(range(1, nb + 1))
        if rng.random() < 0.2:
            rng.shuffle(order)
        body += [{'k': 'band', 'b': b, 'n': width} for b in order]
    body += [{'k': 'blank'}] * rng.choice([0, 0, 1, 2])
    damage = rng.random()
    if damage < 0.1:
        body = body[:rng.randrange(len(body))]
    elif damage < 0.2:
        del body[rng.randrange(1, len(body))]
    elif damage < 0.25:
        body[rng.randrange(1, len(body))] = {'k': 'stars'}
    return doc + body


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def check_P23(check):
    deep = check.thorough
    for name, const in (('shapes', dict(MaxSpins=2, MaxKpts=3, MaxBands=2 if not deep else 3, Slack=2, Extras='FALSE')),
                        ('damaged', dict(MaxSpins=2, MaxKpts=2, MaxBands=3 if deep else 2, Slack=2, Extras='TRUE'))):
        if not wants(check, name):
            continue
        res = vp.tlc('Eigenval', cfg('SpecMC', **const))
        check.add_tlc(res, name, True)
        recs = sorted(res['records'], key=lambda r: (len(r['doc']), str(r['doc'])))
        check.run(name, [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)], judge, 32)
    rng = check.rng('large')
    docs = [random_file(rng, i % 30 == 29) for i in range(2500 if deep else 300)]
    res = vp.tlc_docs('Eigenval', docs, cfg('SpecDocs', MaxSpins=0, MaxKpts=0, MaxBands=0, Slack=0, Extras='FALSE'))
    check.add_tlc(res, 'large')
    check.run('large', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-l{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge)
