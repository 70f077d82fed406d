"""OUTCAR (P10-P13): documents of specs/Outcar.tla rendered to OUTCAR text and read by the real reader."""
import random
import vp

NONE = -100000
CELLS = ['', 'face centered cubic supercell.', 'simple cubic supercell.', 'hexagonal supercell.', 'base centered monoclinic supercell.',
         'triclinic supercell.']
NOISE = [
    [''], ['', ''],
    [' energy  without entropy=      -36.70390741  energy(sigma->0) =      -36.70391035'],
    ['  FREE ENERGIE OF THE ION-ELECTRON SYSTEM (eV)', '  ---------------------------------------------------',
     '  free  energy   TOTEN  =       -36.704 eV', ''],
    ['----------------------------------------- Iterations done -------------------------------------------'],
    ['    LOOP+:  cpu time    3.6719: real time    3.6709'],
    ['   POTIM  = 0.5000    time-step for ionic-motion'],
    ['   NELMGW =      1    number of electronic steps'],
    ['   ISIF   =      3    stress and relaxation'],
    ['   NELECT =      36.0000    total number of electrons'],
    [' POSITION                                       TOTAL-FORCE (eV/Angst)',
     ' -----------------------------------------------------------------------------------',
     '      0.00000      0.00000      0.00000         0.000000      0.000000     -0.012345'],
    [' reached required accuracy - stopping structural energy minimisation'],
    ['------------------------ aborting loop because EDIFF is reached ----------------------------------------'],
    ['  total charge     ', '', '# of ion       s       p       d       tot', '------------------------------------------',
     '    1        0.300   0.500   1.000   1.800', ''],
    [' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)',
     ' Direction    XX          YY          ZZ          XY          YZ          ZX',
     ' --------------------------------------------------------------------------------']
    + [f' {d}          -0.0000     -0.0000     -0.0000   -346.8568     -0.0000      0.0000' for d in ('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX')]
    + [' --------------------------------------------------------------------------------'],
    [' Subroutine INISYM returns: Found 48 space group operations', ' (whereof 24 operations are pure point group operations),',
     " and found     1 'primitive' translations"],
    ['The static configuration has the point symmetry T_d .', ' The point group associated with its full space group is O_h .'],
    ['                          Minor page faults:       776791', '                          Major page faults:           20'],
    [' total amount of memory used by VASP MPI-rank0    33970. kBytes'],
]


def rows(rng, vals, values, width=8, dec=3):
    """Numbers of one magnetisation row."""
    return ''.join(f'{values.num(v):{width}.{dec}f}' for v in vals)


def render(doc, rng, values, after=0):
    """The OUTCAR text of a document, followed by a number of lines of no meaning."""
    out = []
    if rng.random() < 0.5:
        out += [' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Nov 13 2018 14:29:03) complex', '',
                ' executed on             LinuxIFC date 2020.05.06  16:14:30']
    gap = rng.choice([0, 0, 0.3, 0.8])
    intail = False
    first = early = None
    for ev in doc:
        kind = ev['k']
        if rng.random() < gap and not intail:
            out += rng.choice(NOISE)
        if kind == 'param':
            key, val = ev['key'], ev['v']
            out.append({
                'NSW': f'   NSW    = {val:6d}    number of steps for IOM',
                'NELM': f'   NELM   = {val:6d};   NELMIN=  2; NELMDL= -5     # of ELM steps ',
                'IBRION': f'   IBRION = {val:6d}    ionic relax: 0-MD 1-quasi-New 2-CG',
                'NBANDS': f'   k-points           NKPTS =     10   k-points in BZ     NKDIM =     10   number of bands    NBANDS={val:7d}',
            }[key])
        elif kind == 'iter':
            out.append(f'{"-" * 39} Iteration {ev["i"]:6d}({ev["e"]:4d})' + ('  ' + '-' * 39 if rng.random() < 0.8 else rng.choice(['', ' ', '-----'])))
        elif kind == 'timing':
            out += ['']
            first = (len(out), first)
            out += [' General timing and accounting informations for this job:',
                    ' ========================================================', '']
            intail = True
        elif kind == 'analysis':
            out.append({'static': 'Analysis of symmetry for initial positions (statically):',
                        'dynamic': 'Analysis of symmetry for dynamics (positions and initial velocities):',
                        'magnetic': 'Analysis of structural, dynamic, and magnetic symmetry:'}[ev['t']])
            out.append('=' * 69)
        elif kind == 'pricel':
            out += [' Subroutine PRICEL returns:', ' Original cell was already a primitive cell.', '']
        elif kind == 'super':
            out += [' Subroutine PRICEL returns following result:', '', f'{ev["n"]:6d} primitive cells build up your supercell.', '']
        elif kind == 'setgrp':
            out += [' Routine SETGRP: Setting up the symmetry group for a ', ' ' + CELLS[ev['t']], '']
        elif kind == 'getgrp':
            out += [f' Subroutine GETGRP returns: Found {ev["n"]:2d} space group operations',
                    ' (whereof 24 operations were pure point group operations)', '']
        elif kind == 'elastic':
            head = {'non_symmetrized': '  ELASTIC MODULI  (kBar)', 'symmetrized': '  SYMMETRIZED ELASTIC MODULI (kBar)',
                    'total': ' TOTAL ELASTIC MODULI (kBar)', 'ionic': ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)'}[ev['which']]
            out += [head, ' Direction    XX          YY          ZZ          XY          YZ          ZX', ' ' + '-' * 80]
            for r, name in enumerate(('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX')):
                out.append(f' {name}    ' + ''.join(f'{values.num(v):12.4f}' for v in ev['t'][6 * r:6 * r + 6]))
            out += [' ' + '-' * 80, '']
        elif kind == 'mag':
            orbs = len(ev['sites'][0]) - 1
            out += [f' magnetization ({ev["d"]})', ' ', '# of ion     ' + '  '.join('spdf'[:orbs]) + '       tot', '-' * 42]
            for i, site in enumerate(ev['sites']):
                out.append(f'{i + 1:5d}      ' + ''.join(f'{values.num(v):10.3f}' for v in site))
            if ev['total']:
                out += ['-' * 50, 'tot        ' + ''.join(f'{values.num(v):10.3f}' for v in ev['total'])]
            out += ['', '']
        elif kind == 'nelect':
            text = ' number of electron      36.0000000 magnetization ' if ev['v'] or rng.random() < 0.5 else \
                ' number of electron      36.0000000 magnetization '
            out.append(text + ''.join(f'{values.num(v):16.7f}' for v in ev['v']))
        elif kind == 'stat':
            intail = True
            first = len(out) if first is None else first
            label = ' '.join(ev['words'])
            val = ev['v']
            if ev['form'] == 'kBytes':
                out.append(f'   {label:10s}:' + (f'{values.num(val):12.3f}' if val != NONE else '  **********') + ' kBytes')
            else:
                unit = 'sec' if ev['form'] == 'sec' else 'kb'
                words = [w if w == 'cpu' and False else (w.upper() if w == 'cpu' else w) for w in ev['words']]
                words[0] = words[0].capitalize()
                text = '  ' + ' '.join(words) + f' ({unit}):'
                out.append(f'{text:>45s}' + (f'{values.num(val):12.3f}' if val != NONE else rng.choice(['', '   N/A', '  *********'])))
        elif kind == 'early':
            out += [' total amount of memory used by VASP MPI-rank0    33970. kBytes', '=' * 71, '']
            out += [f'   {label:10s}: {rng.randint(1, 99999):10d}. kBytes' for label in ('base', 'nonl-proj', 'fftplans', 'start')]
            out += rng.choice([[''], ['                  Setup time used (sec):        1.234', '                   Startup memory used (kb):       12345.']])
            early = len(out)
        elif kind == 'noise' and not intail:
            out += rng.choice(NOISE)
        elif kind == 'noise':
            out += rng.choice([[''], ['                          Minor page faults:       776791'],
                               ['                 Voluntary context switches:         1460']])
    if isinstance(first, tuple) and rng.random() < 0.5:
        # the memory figures may stand well above the timings; all of them belong to the last fifty lines
        start = first[0] if first[1] is None else first[1]
        room = 49 - (len(out) - start)
        if room > 0:
            out[first[0]:first[0]] = [rng.choice(['', ' ', ' ' + '-' * 70])] * rng.randint(0, room)
    last = doc[-1] if doc else {'k': ''}
    if (last['k'] == 'elastic' or (last['k'] == 'mag' and last['total'])) and rng.random() < 0.4:
        # nothing follows the last row of the block
        while not out[-1].strip(' -'):
            out.pop()
    if early is not None:
        while len(out) - early < 60:
            out[early:early] = rng.choice(NOISE)
    for _ in range(after):
        out += rng.choice([[''], ['                          Minor page faults:       776791'], ['-' * 79], [' PROFILE, used timers:       0']])
    return out


def observe(lines, rng):
    """Read the text with the real reader."""
    from parsevasp.outcar import Outcar
    text = '\n'.join(lines) + '\n'
    if rng.random() < 0.5:
        import io
        res = vp.call(Outcar, file_handler=io.StringIO(text))
    else:
        with open('OUTCAR', 'w') as handle:
            handle.write(text)
        res = vp.call(Outcar, file_path='OUTCAR')
    return res


def obj(val):
    """TLC prints an empty function as []."""
    return {} if val == [] else val


def expected(exp, part, values):
    """The specification's prediction in the reader's vocabulary."""
    if part == 'status':
        want = {k: (None if exp[k] == NONE else exp[k]) for k in ('nsw', 'nelm')}
        want.update(finished=exp['finished'], last_iteration_index=list(exp['last']),
                    ionic_converged={'true': True, 'false': False, 'none': None}[exp['ionic']],
                    electronic_converged=exp['elec'], contains_nelm_breach=exp['contains'],
                    consistent_nelm_breach=exp['consistent'])
        want['nbands'] = None if exp['nbands'] == NONE else exp['nbands']
        return want
    if part == 'sym':
        return {'num_space_group_operations': exp['ngrp'],
                'original_cell_type': {c: ['primitive cell' if n == 0 else f'{n} primitive cells' for n in exp['orig'][c]]
                                       for c in ('static', 'dynamic')},
                'symmetrized_cell_type': {c: [CELLS[t] for t in exp['symm'][c]] for c in ('static', 'dynamic')}}
    if part == 'mag':
        def orbital(vals):
            keys = ['s', 'p', 'd', 'f'][:len(vals) - 1] + ['tot']
            return {k: round(values.num(v), 3) for k, v in zip(keys, vals)}
        sphere = {}
        for d in 'xyz':
            sites = exp['site'][d]
            sphere[d] = {'site_moment': {i + 1: orbital(v) for i, v in enumerate(sites)},
                         'total_magnetization': orbital(exp['tot'][d][0]) if exp['tot'][d] else {}}
        return {'sphere': sphere, 'full_cell': [values.num(v) for v in exp['cell']] if exp['cellSeen'] else {}}
    if part == 'elastic':
        return {name: [[round(values.num(v), 4) for v in t[6 * r:6 * r + 6]] for r in range(6)]
                for name, t in obj(exp['elastic']).items() if name != 'ionic'}
    if part == 'stats':
        return {k: (None if v == NONE else round(values.num(v), 3)) for k, v in obj(exp['stats']).items()}
    raise vp.Machinery(part)


def judge_parts(parts):
    """A judge comparing the given parts of the reader's result."""
    def judge(case):
        rng = random.Random(case['salt'])
        values = vp.Values(rng)
        # a file may go on after its headline and statistics; only these must stand near the end
        after = rng.choice([0, 0, 0, 30, 80, 250]) if 'stats' not in parts else 0
        lines = render(case['doc'], rng, values, after)
        exp = case['exp']
        res = observe(lines, rng)
        text = '\n'.join(lines)
        small = text if len(text) < 6000 else text[:3000] + '\n...\n' + text[-3000:]
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': 'a file without any iteration was accepted', 'input': small}
            return {'input': small, 'nontrivial': False}
        if res[0] != 'ok':
            return {'bad': f'the reader failed: {res}', 'input': small}
        cut = res[1]
        for part in parts:
            want = expected(exp, part, values)
            got = vp.call({'status': cut.get_run_status, 'sym': cut.get_symmetry, 'mag': cut.get_magnetization,
                           'elastic': cut.get_elastic_moduli, 'stats': cut.get_run_stats}[part])
            if got[0] != 'ok':
                return {'bad': f'{part}: {got}', 'input': small}
            got = got[1]
            if part == 'status':
                got = dict(got)
                got.setdefault('nbands', None)
                got = {k: (v if not isinstance(v, tuple) else list(v)) for k, v in got.items() if k in want}
            if part == 'elastic':
                got = {k: v for k, v in got.items() if v is not None}
            diff = vp.deep(want, got, part)
            if diff:
                return {'bad': diff, 'input': small}
        return {'input': small}
    return judge


CONST = {'Area': '"docs"', 'MaxLen': 0, 'Nelms': '{}', 'Nsws': '{}', 'IbrionCodes': '{}', 'MaxIonic': 0}


def cfg(spec, **const):
    """Configuration text."""
    allc = dict(CONST)
    allc.update(const)
    return (f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n'
            + '\n'.join(f'  {k} = {v}' for k, v in allc.items()) + '\n')


def history(rng, big):
    """A random run: parameters, iterations with other output between them, a possible end."""
    doc = []
    nelm = rng.choice([1, 2, 3, 5, 60, 100])
    nsw = rng.choice([0, 1, 2, 3, 5, 10, 50, 1000])
    ibrion = rng.choice([-1, 0, 1, 2, 3, 5, 6, 7, 8, 44])
    params = [{'k': 'param', 'key': 'NELM', 'v': nelm}, {'k': 'param', 'key': 'NSW', 'v': nsw},
              {'k': 'param', 'key': 'IBRION', 'v': ibrion}, {'k': 'param', 'key': 'NBANDS', 'v': rng.choice([1, 8, 64, 1024])}]
    rng.shuffle(params)
    orbs = rng.choice([3, 4])
    nsites = rng.choice([1, 2, 3, 7, 12]) if not big else rng.choice([60, 101])
    dirs = rng.choice([[], ['x'], ['x', 'y', 'z']])
    uid = [1000]

    def new(n):
        uid[0] += n
        return list(range(uid[0] - n, uid[0]))

    def symmetry():
        res = []
        for t in rng.choice([['static', 'dynamic'], ['static', 'dynamic', 'magnetic'], ['static'], []]):
            res.append({'k': 'analysis', 't': t})
            res.append({'k': 'pricel'} if rng.random() < 0.6 else {'k': 'super', 'n': rng.choice([rng.randint(2, 128), rng.randint(100, 50000)])})
            res.append({'k': 'setgrp', 't': rng.randint(1, 5)})
            res.append({'k': 'getgrp', 'n': rng.choice([rng.randint(1, 48), rng.randint(1, 48), rng.randint(96, 9999)])})
        return res

    def output():
        res = []
        if rng.random() < 0.7:
            res.append({'k': 'nelect', 'v': new(len(dirs))})
        if rng.random() < 0.6:
            for d in dirs:
                res.append({'k': 'mag', 'd': d, 'sites': [new(orbs + 1) for _ in range(nsites)],
                            'total': new(orbs + 1) if nsites > 1 else []})
        return res

    doc += symmetry() + params
    if rng.random() < 0.3:
        doc.append({'k': 'early'})
    if rng.random() < 0.1:
        return doc
    nion = rng.choice([1, 1, 2, 3, 4, max(1, min(nsw, 12)), max(1, min(nsw, 12))]) if not big else rng.choice([40, 120])
    style = rng.choice(['full', 'part', 'mixed', 'butlast', 'butone'])
    if not big and rng.random() < 0.15:
        nelm, nion = rng.choice([1, 2]), rng.randint(8, 13)
        params[[p['key'] for p in params].index('NELM')]['v'] = nelm
    odd = nion if style == 'butlast' else rng.randint(1, nion)
    for i in range(1, nion + 1):
        top = nelm if nelm <= 5 or (nelm == 60 and nion < 4) else 6
        steps = top if style == 'full' else (max(1, top - 1) if i == odd else top) if style in ('butlast', 'butone') else rng.randint(1, top) if style == 'mixed' else max(1, min(top, nelm - 1))
        for e in range(1, steps + 1):
            doc.append({'k': 'iter', 'i': i, 'e': e})
            if rng.random() < 0.1:
                doc.append({'k': 'nelect', 'v': new(len(dirs))})
        doc += output()
        if rng.random() < 0.2:
            doc += symmetry()
        if rng.random() < 0.15:
            # an analysis without a heading of its own belongs to the section announced last
            loose = [{'k': 'pricel'} if rng.random() < 0.6 else {'k': 'super', 'n': rng.choice([rng.randint(2, 128), rng.randint(100, 50000)])},
                     {'k': 'setgrp', 't': rng.randint(1, 5)}, {'k': 'getgrp', 'n': rng.choice([rng.randint(1, 48), rng.randint(1, 48), rng.randint(96, 9999)])}]
            doc += rng.sample(loose, rng.randint(1, 3))
        if rng.random() < 0.3:
            doc.append({'k': 'noise'})
    if rng.random() < 0.3:
        for which in rng.sample(['non_symmetrized', 'symmetrized', 'ionic', 'total'], rng.randint(1, 4)):
            doc.append({'k': 'elastic', 'which': which, 't': new(36)})
    if rng.random() < 0.6:
        if rng.random() < 0.7:
            for w in ('base', 'nonl-proj', 'fftplans', 'grid', 'one-center', 'wavefun'):
                if rng.random() < 0.8:
                    doc.append({'k': 'stat', 'form': 'kBytes', 'pre': 'mem_usage_', 'words': [w], 'v': NONE if rng.random() < 0.1 else new(1)[0]})
        doc.append({'k': 'timing'})
        for form, words in (('sec', ['total', 'cpu', 'time', 'used']), ('sec', ['user', 'time']), ('sec', ['system', 'time']),
                            ('sec', ['elapsed', 'time']), ('kb', ['maximum', 'memory', 'used']), ('kb', ['average', 'memory', 'used'])):
            if rng.random() < 0.9:
                doc.append({'k': 'stat', 'form': form, 'pre': '', 'words': words,
                            'v': NONE if rng.random() < 0.1 else new(1)[0]})
            if rng.random() < 0.1:
                doc.append({'k': 'noise'})
    if rng.random() < 0.3:
        doc = doc[:rng.randint(len(params), len(doc))]
    return doc


def explore(check, area, parts, mc):
    """Exhaustive small documents, then generated large ones."""
    name = f'{area}-exhaustive'
    if check.replay is None or check.replay.get('group') == name:
        res = vp.tlc('Outcar', cfg('SpecMC', Area=f'"{area}"', **mc))
        check.add_tlc(res, name, exhaustive=True)
        cases = [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(
            sorted(res['records'], key=lambda r: (len(r['doc']), str(r['doc']))))]
        check.run(name, cases, judge_parts(parts))
    name = f'{area}-histories'
    rng = check.rng('docs')
    count = 6000 if check.thorough else 500
    docs = [history(rng, i % 25 == 0) for i in range(count)]
    docs = [d for d in docs if d]
    res = vp.tlc_docs('Outcar', docs, cfg('SpecDocs'))
    check.add_tlc(res, name)
    cases = [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-d{i}') for i, (d, r) in enumerate(zip(docs, res['records']))]
    check.run(name, cases, judge_parts(parts))


def check_P10(check):
    mc = dict(MaxLen=16 if check.thorough else 13, Nelms='{1, 2, 3}', Nsws='{0, 1, 2, 3, 5}',
              IbrionCodes='{0, 1, 2, 3, 4}', MaxIonic=4 if check.thorough else 3)
    explore(check, 'status', ['status'], mc)
    cuts(check)


def check_P11(check):
    explore(check, 'mag', ['mag', 'elastic'], dict(MaxLen=8 if check.thorough else 7))


def check_P12(check):
    explore(check, 'sym', ['sym'], dict(MaxLen=8 if check.thorough else 6))


def check_P13(check):
    explore(check, 'stats', ['stats'], dict(MaxLen=8 if check.thorough else 7))


def cuts(check):
    """Every line at which a generated run may end: the events completed before the cut decide the status."""
    name = 'status-cuts'
    rng = check.rng('cuts')
    docs, cases = [], []
    for i in range(300 if check.thorough else 25):
        doc = history(rng, False)
        salt = f'{check.seed}-c{i}'
        full = render(doc, random.Random(salt), vp.Values(random.Random(salt)))
        if len(full) > 400:
            continue
        for cut in range(len(full) + 1):
            docs.append(status_events(full[:cut]))
            cases.append(dict(lines=full[:cut]))
    res = vp.tlc_docs('Outcar', [d or [{'k': 'noise'}] for d in docs], cfg('SpecDocs'))
    check.add_tlc(res, name)
    for case, rec in zip(cases, res['records']):
        case['exp'] = rec['exp']
    check.run(name, cases, judge_cut)


def status_events(lines):
    """Events that matter to the run status, recovered from rendered lines (the renderer's own inverse)."""
    doc = []
    for line in lines:
        if ' Iteration ' in line and '(' in line and line.startswith('---'):
            a, b = line.split('Iteration')[1].split(')')[0].split('(')
            doc.append({'k': 'iter', 'i': int(a), 'e': int(b)})
        elif line.startswith(' General timing and accounting informations'):
            doc.append({'k': 'timing'})
        elif 'NBANDS=' in line:
            doc.append({'k': 'param', 'key': 'NBANDS', 'v': int(line.split('NBANDS=')[1])})
        else:
            for key in ('NSW', 'NELM', 'IBRION'):
                if line.startswith('   ' + key + ' ') and '=' in line:
                    doc.append({'k': 'param', 'key': key, 'v': int(line.split('=')[1].split(';')[0].split()[0])})
    return doc


def judge_cut(case):
    rng = random.Random(len(case['lines']))
    lines = case['lines']
    exp = case['exp']
    text = '\n'.join(lines[-60:])
    if not lines:
        return {'nontrivial': False}
    res = observe(lines, rng)
    if exp['refused']:
        return {'bad': 'a file that ends before the first iteration was accepted', 'input': text} if res[0] == 'ok' \
            else {'nontrivial': False}
    if res[0] != 'ok':
        return {'bad': f'the reader failed on a file that ends after {len(lines)} lines: {res}', 'input': text}
    want = expected(exp, 'status', None)
    got = dict(res[1].get_run_status())
    got.setdefault('nbands', None)
    got = {k: v for k, v in got.items() if k in want}
    diff = vp.deep(want, got, 'status')
    return {'bad': diff, 'input': text} if diff else {'input': text}
