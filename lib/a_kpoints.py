"""KPOINTS (P06, P07): files of specs/KpointsRead.tla and edit histories of specs/KpointsEdit.tla."""
import io
import os
import random
import numpy as np
import vp

WORDS = {'l': ['Line-mode', 'line', 'L', 'Linemode'], 'g': ['Gamma', 'gamma centered', 'G', 'GAMMA'],
         'm': ['Monkhorst-Pack', 'monkhorst', 'M', 'MP'], 'r': ['Reciprocal', 'rec', 'R', 'reciprocal lattice'],
         'd': ['Direct', 'direct', 'D'], 'c': ['Cartesian', 'cart', 'C'], 'k': ['K-points in cartesian', 'k', 'K'],
         'a': ['Automatic', 'auto', 'A', 'Fully automatic'][:3], 'x': ['Xyz', 'x', 'Z', 'unknown', 'explicit'],
         't': ['Tetrahedra', 'tetra', 'T', 'Tetrahedron']}


def number(rng):
    """Text of a real number."""
    return rng.choice(['{:.8f}', '{:.6f}', '{:.3f}', '{:.4E}', '{:.2f}', '{:g}']).format(rng.choice([rng.uniform(-1, 1), rng.uniform(0, 1), rng.choice([0.0, 0.5, 0.25, 1.0, -0.5])]))


def render(doc, rng):
    """(text, identifier -> number) of a document."""
    nums, lines = {}, []
    lead = rng.choice(['', ' ', '   ', '\t'])
    for ev in doc:
        kind = ev['k']
        if kind == 'text':
            lines.append(rng.choice(['# my k-points', '# Γ–X in Å⁻¹', 'Example file', '#', ' k-points along 3 4 L', '# Gamma']))
        elif kind == 'count':
            lines.append(lead + str(ev['v']) + rng.choice(['', ' ', ' ! number of points', '  points']))
        elif kind == 'word':
            lines.append(rng.choice(['', '', ' ']) + rng.choice(WORDS[ev['c']]))
        elif kind in ('nums', 'tet'):
            vals = []
            for ident in ev['v'] if kind == 'nums' else [ev['v']]:
                text = number(rng)
                nums[ident] = float(text)
                vals.append(text)
            if kind == 'tet':
                vals.insert(0, str(ev['n']))
            lines.append(lead + rng.choice([' ', '  ', '\t']).join(vals) + rng.choice(['', '', ' ']))
        elif kind == 'ints':
            lines.append(lead + rng.choice([' ', '   ']).join(str(v) for v in ev['v']))
        else:
            lines.append(rng.choice(['', '', ' ', '\t ']))
    text = '\n'.join(lines) + rng.choice(['\n', '\n', ''])
    return text, nums, lines


def comment_of(line):
    """The comment without its sign."""
    return line.replace('#', '').strip()


def want_read(exp, nums, lines):
    """Dictionary the specification predicts."""
    points = None
    if exp['mode'] in ('explicit', 'line'):
        points = [[[nums[i] for i in p['p']], 1.0 if p['w'] == 1 else None if p['w'] == 0 else nums[p['w']], True] for p in exp['points']]
    return {'comment': comment_of(lines[0]), 'mode': exp['mode'], 'num_kpoints': exp['n'], 'points': points,
            'centering': None if exp['cent'] == 'none' else exp['cent'],
            'divisions': exp['div'] or None, 'generating_vectors': [[nums[i] for i in v] for v in exp['gen']] or None,
            'shifts': [nums[i] for i in exp['shifts']] if exp['hasShifts'] else None,
            'tetra': exp['tetra'] if exp['hasTetra'] else None, 'tetra_volume': nums[exp['tvol']] if exp['hasTetra'] else None}


def sources(text):
    """Constructor arguments for every source."""
    with open('KPOINTS', 'w', encoding='utf8') as handle:
        handle.write(text)
    yield 'text', {'kpoints_string': text}
    yield 'path', {'file_path': 'KPOINTS'}
    yield 'handle', {'file_handler': io.StringIO(text)}


def judge_read(case):
    from parsevasp.kpoints import Kpoints
    rng = random.Random(case['salt'])
    exp = case['exp']
    if exp['vague']:
        return {'nontrivial': False, 'traces': 0}
    text, nums, lines = render(case['doc'], rng)
    for name, kwargs in sources(text):
        res = vp.call(Kpoints, **kwargs)
        note = f'({name}) {text!r}'
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': f'accepted, giving {res[1].get_dict()}', 'input': note}
            continue
        if res[0] != 'ok':
            return {'bad': f'refused a valid file: {res}', 'input': note}
        got = vp.call(res[1].get_dict)
        diff = str(got) if got[0] != 'ok' else vp.deep(want_read(exp, nums, lines), got[1], tol=1e-13)
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': text, 'nontrivial': not exp['refused']}


def random_file(rng):
    """A large file of one mode."""
    doc = [{'k': 'text'}]
    ident = [10]

    def nums(n):
        ident[0] += n
        return {'k': 'nums', 'v': list(range(ident[0] - n, ident[0]))}
    mode = rng.choice('elagr')
    blank = {'k': 'blank'}
    if mode == 'e':
        n = rng.choice([1, 2, 5, 30, 150])
        doc += [{'k': 'count', 'v': n}, {'k': 'word', 'c': rng.choice('rdxgma')}]
        doc += [nums(rng.choice([3, 4])) for _ in range(n)] if rng.random() < 0.3 else [nums(4) for _ in range(n)]
        if rng.random() < 0.5:
            m = rng.choice([1, 3, 40])
            ident[0] += 1
            doc += [{'k': 'word', 'c': 't'}, {'k': 'tet', 'n': m, 'v': ident[0]}]
            ident[0] += 1
            doc += [{'k': 'ints', 'v': [rng.randint(1, 999) for _ in range(5)]} for _ in range(m)]
    elif mode == 'l':
        doc += [{'k': 'count', 'v': rng.choice([1, 10, 40, 200])}, {'k': 'word', 'c': 'l'}, {'k': 'word', 'c': rng.choice('rd')}]
        for _ in range(rng.choice([1, 2, 7, 30])):
            doc += [nums(rng.choice([3, 4])), nums(3)] + [blank] * rng.choice([0, 1, 1, 2])
        if rng.random() < 0.2:
            doc.append(nums(3))
    elif mode == 'a' or mode == 'g':
        doc += [{'k': 'count', 'v': rng.choice([0, 0, -1])}, {'k': 'word', 'c': rng.choice('gm')},
                {'k': 'ints', 'v': [rng.randint(1, 31) for _ in range(3)]}]
        if rng.random() < 0.6:
            doc.append(nums(3))
    else:
        doc += [{'k': 'count', 'v': 0}, {'k': 'word', 'c': 'r'}, nums(3), nums(3), nums(3), nums(3)]
    doc += [blank] * rng.choice([0, 0, 1, 3])
    if rng.random() < 0.1:
        doc = doc[:rng.randint(3, len(doc))]
    return doc


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def cases_of(check, records):
    recs = sorted(records, key=lambda r: (len(r['doc']), str(r['doc'])))
    return [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)]


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def check_P06(check):
    deep = check.thorough
    if wants(check, 'files'):
        res = vp.tlc('KpointsRead', cfg('SpecMC', MaxLen=11 if deep else 9, Counts='{0, 1, 2, 3, 4}' if deep else '{0, 1, 2, 3}',
                                        Letters='{"l", "g", "m", "r", "d", "c", "k", "a", "x"}'))
        check.add_tlc(res, 'files', True)
        cases = cases_of(check, res['records'])
        for rep in range(8 if not deep else 12):   # several renderings of each document
            for case in list(cases[:len(cases)]) if rep == 0 else []:
                cases.extend(dict(case, salt=case['salt'] + f'r{k}') for k in range(3))
        check.run('files', cases, judge_read, 32)
    rng = check.rng('large')
    docs = [random_file(rng) for _ in range(8000 if deep else 800)]
    res = vp.tlc_docs('KpointsRead', docs, cfg('SpecDocs', MaxLen=0, Counts='{}', Letters='{}'))
    check.add_tlc(res, 'large')
    check.run('large', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-l{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge_read)


# ---------------------------------------------------------------------------------------------- edits

class Edited:
    """A real Kpoints driven by a history."""

    def __init__(self, doc, rng):
        from parsevasp.kpoints import Kpoints, Kpoint
        self.cls, self.point = Kpoints, Kpoint
        self.rng = rng
        self.val = {}
        self.made = {}
        self.log = []
        self.prec = rng.choice([None, None, 9, 12])
        ini = doc[0]
        self.ini = ini
        st0 = self.initial(ini)
        if ini['form'] == 'dict':
            given = self.as_dict(st0, objects=True)
            given = {k: given[k] for k in rng.sample(list(given), len(given))}
            self.log.append(f'Kpoints(kpoints_dict={given!r})')
            self.res = vp.call(Kpoints, kpoints_dict=given, **({} if self.prec is None else {'prec': self.prec}))
        else:
            text = self.text(st0)
            self.log.append(f'Kpoints(kpoints_string={text!r})')
            self.res = vp.call(Kpoints, kpoints_string=text, **({} if self.prec is None else {'prec': self.prec}))

    @staticmethod
    def idents(base, doc):
        """Identifiers of the points of a list; the second of a pair of twins has that of the first."""
        twin = doc['twin']
        return [base + (twin[0] if twin and j == twin[1] else j) for j in range(1, doc['np'] + 1)]

    def num(self):
        return round(self.rng.choice([self.rng.uniform(-1, 1), self.rng.uniform(0, 1), 0.5, 0.0, 1.0, -12.125]), 7)

    def value(self, field, ident):
        """Concrete value for an identifier of a field."""
        key = (field, ident)
        if key not in self.val:
            rng = self.rng
            self.val[key] = {
                'comment': lambda: rng.choice(['my points', 'Γ–X in Å⁻¹', 'generated by me', 'k 1 2 3', 'l', '']),
                'points': lambda: ([self.num() for _ in range(3)], rng.choice([1.0, 4.0, 0.125, None, round(rng.uniform(0, 9), 6)])),
                'n': lambda: rng.choice([1, 10, 40, 200, 1000000]),
                'tetra': lambda: [[rng.choice([rng.randint(1, 40), rng.randint(1000, 9999), rng.randint(10000, 9999999)]) for _ in range(5)] for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))],
                'tvol': lambda: round(rng.uniform(0, 2), 7),
                'div': lambda: [rng.choice([rng.randint(1, 21), rng.randint(100, 123456)]) for _ in range(3)],
                'gen': lambda: [[self.num() for _ in range(3)] for _ in range(3)],
                'shifts': lambda: [rng.choice([0.0, 0.5, self.num()]) for _ in range(3)],
                'cent': lambda: rng.choice(['Gamma', 'Monkhorst-Pack']),
            }[field]()
        return self.val[key]

    def initial(self, ini):
        return {'mode': ini['mode'], 'comment': 1000 if ini['comment'] else 0, 'points': self.idents(90000, ini), 'n': 1000,
                'tetra': 1000 if ini['tetra'] else 0, 'tvol': 1000 if ini['tetra'] else 0, 'div': 1000 if ini['mode'] == 'automatic' else 0,
                'gen': 1000 if ini['mode'] == 'reciprocal' else 0, 'shifts': 1000 if ini['shifts'] else 0,
                'cent': 1000 if ini['mode'] == 'automatic' else 0}

    def as_dict(self, st, objects=False):
        """The dictionary that describes a specification state."""
        mode = st['mode']
        points = None
        if mode in ('explicit', 'line'):
            points = []
            for ident in st['points']:
                xyz, weight = self.value('points', ident)
                weight = 1.0 if mode == 'line' else weight
                points.append(self.kpoint(ident) if objects else [xyz, weight, True])
        num = {'explicit': len(st['points']), 'line': self.value('n', st['n']), 'automatic': 0, 'reciprocal': 0}[mode]

        def opt(field):
            return self.value(field, st[field]) if st[field] else None
        return {'comment': opt('comment'), 'mode': 'automatic' if mode == 'reciprocal' else mode, 'num_kpoints': num, 'points': points,
                'centering': 'Reciprocal' if mode == 'reciprocal' else opt('cent'), 'divisions': opt('div'),
                'generating_vectors': opt('gen'), 'shifts': opt('shifts'), 'tetra': opt('tetra'), 'tetra_volume': opt('tvol')}

    def text(self, st):
        """The same as a KPOINTS text."""
        d = self.as_dict(st)
        lines = ['# ' + (d['comment'] or ''), str(d['num_kpoints'])]
        if st['mode'] == 'explicit':
            lines.append('Direct')
            lines += [' '.join(f'{x:.7f}' for x in p[0] + ([] if p[1] is None else [p[1]])) for p in d['points']]
            if d['tetra'] is not None:
                lines += ['Tetrahedra', f'{len(d["tetra"])} {d["tetra_volume"]:.7f}'] + [' '.join(map(str, t)) for t in d['tetra']]
        elif st['mode'] == 'line':
            lines += ['Line-mode', 'Reciprocal']
            for i, p in enumerate(d['points']):
                lines.append(' '.join(f'{x:.7f}' for x in p[0]))
                if i % 2:
                    lines.append('')
        else:
            lines.append(d['centering'])
            rows = [d['divisions']] if d['divisions'] else []
            rows += [[f'{x:.7f}' for x in v] for v in d['generating_vectors'] or []]
            if d['shifts']:
                rows.append([f'{x:.7f}' for x in d['shifts']])
            lines += [' '.join(map(str, row)) for row in rows]
        return '\n'.join(lines) + '\n'

    def kpoint(self, ident):
        """A point as a caller supplies it: the same object when supplied again."""
        if ident not in self.made:
            xyz, weight = self.value('points', ident)
            self.made[ident] = self.point(np.array(xyz), 1.0 if self.ini['mode'] == 'line' else weight, True)
        return self.made[ident]

    def apply(self, e, m):
        """One edit on the real object; a complaint or None."""
        k = self.res[1]
        kind = e['k']
        if kind == 'bad':
            return self.bad(e['what'])
        if kind == 'point':
            act = ('modify', 'points', self.kpoint(100 * m), e['i'] - 1)
        elif kind == 'points':
            act = ('modify', 'points', [self.kpoint(i) for i in self.idents(100 * m, e)])
        elif kind == 'delete':
            act = ('delete_point', e['i'] - 1)
        elif kind == 'num':
            act = ('modify', 'num_kpoints', self.value('n', m))
        elif kind == 'noshifts':
            act = ('modify', 'shifts', None)
        else:
            field = {'tetra_volume': 'tvol', 'divisions': 'div', 'generating_vectors': 'gen', 'centering': 'cent'}.get(kind, kind)
            act = ('modify', kind, self.value(field, m))
        self.log.append(f'{act[0]}{act[1:]!r}')
        got = vp.call(getattr(k, act[0]), *act[1:])
        if got[0] != 'ok':
            return f'{self.log[-1]} failed: {got}'
        if kind == 'tetra' and k.entries.get('tetra_volume') is None:
            vp.call(k.modify, 'tetra_volume', self.value('tvol', m))
        return None

    def bad(self, what):
        """An edit that must be refused."""
        k = self.res[1]
        big = len(k.entries['points'] or []) + self.rng.choice([0, 1, 7])
        acts = {'entry': [('modify', 'foo', 'bar'), ('modify', 'mycomment', 'bar'), ('modify', 'pointsx', []), ('modify', '', 'x')],
                'type': [('modify', 'comment', 5), ('modify', 'comment', ['a']), ('modify', 'divisions', [1.5, 2, 3]), ('modify', 'divisions', (1, 2, 3)),
                         ('modify', 'shifts', [0, 0, 0]), ('modify', 'shifts', 0.5), ('modify', 'generating_vectors', [1.0, 2.0, 3.0]),
                         ('modify', 'generating_vectors', [[1, 2, 3]]), ('modify', 'tetra', [[1, 2, 3, 4]]), ('modify', 'tetra', [[1, 2, 3, 4, 5.5]]),
                         ('modify', 'tetra', 5), ('modify', 'tetra_volume', 'big'), ('modify', 'tetra_volume', 1),
                         ('modify', 'centering', 'Center'), ('modify', 'centering', 'gamma'), ('modify', 'mode', 'lines'),
                         ('modify', 'num_kpoints', 'ten'), ('modify', 'num_kpoints', 2.0), ('modify', 'points', 'x'),
                         ('modify', 'points', {'a': 1}), ('modify', 'points', [self.point(np.zeros(3), 1.0), None]), ('modify', 'num_kpoints', None)],
                'range': [('delete_point', big), ('modify', 'points', self.point(np.zeros(3), 1.0), big), ('delete_point', '0'), ('delete_point', 0.0),
                          ('delete_point', -big - 1), ('modify', 'points', self.point(np.zeros(3), 1.0), -big - 1)],
                'point': [('modify', 'points', [0.0, 0.0, 0.0], 0), ('modify', 'points', np.zeros(3), 0), ('modify', 'points', None, 0),
                          ('modify', 'points', self.point(np.zeros(3), 1.0, False), 0), ('modify', 'points', [self.point(np.zeros(3), 1.0, False)]),
                          ('modify', 'comment', self.point(np.zeros(3), 1.0), 0), ('modify', 'divisions', self.point(np.zeros(3), 1.0), 0),
                          ('modify', 'mode', self.point(np.zeros(3), 1.0), 0)]}
        act = self.rng.choice(acts[what])
        self.log.append(f'{act[0]}{act[1:]!r}')
        got = vp.call(getattr(k, act[0]), *act[1:])
        return f'{self.log[-1]} was accepted' if got[0] == 'ok' else None

    def compare(self, st):
        """Dictionary, lookups, text and file against the specification's state."""
        k = self.res[1]
        want = self.as_dict(st)
        got = vp.call(k.get_dict)
        diff = str(got) if got[0] != 'ok' else vp.deep(want, got[1])
        if diff:
            return diff
        for tag in ('comment', 'mode', 'divisions', 'shifts', 'centering', 'num_kpoints', 'generating_vectors', 'tetra'):
            one = vp.call(k.get, tag)
            diff = f'get({tag}): {one}' if one[0] != 'ok' else vp.deep(want[tag], one[1], f'get({tag})')
            if diff:
                return diff
        back = dict(want)
        if back['comment'] is None:
            back['comment'] = 'No comment'
        if st['mode'] in ('automatic', 'reciprocal') and back['shifts'] is None:
            back['shifts'] = [0.0, 0.0, 0.0]
        if back['points']:  # a point without a weight is written with weight one
            back['points'] = [[xyz, 1.0 if weight is None else weight, direct] for xyz, weight, direct in back['points']]
        text = vp.call(k.get_string)
        if text[0] != 'ok':
            return f'get_string: {text}'
        diff = self.reread('text', back, kpoints_string=text[1])
        if diff:
            return diff + f' text={text[1]!r}'
        if os.path.exists('KOUT'):
            os.unlink('KOUT')
        done = vp.call(k.write, file_path='KOUT')
        if done[0] != 'ok':
            return f'write: {done}'
        with open('KOUT') as handle:
            content = handle.read()
        if content != text[1]:
            return f'file {content!r} differs from text {text[1]!r}'
        diff = self.reread('file', back, file_path='KOUT')
        if diff:
            return diff
        got = vp.call(k.get_dict)
        return str(got) if got[0] != 'ok' else vp.deep(want, got[1], 'after writing')

    def reread(self, what, want, **kwargs):
        res = vp.call(self.cls, **kwargs)
        if res[0] != 'ok':
            return f'{what} cannot be read back: {res}'
        return vp.deep(want, res[1].get_dict(), f'{what} read back ', tol=2e-9)


def judge_edit(case):
    rng = random.Random(case['salt'])
    doc, exp = case['doc'], case['exp']
    run = Edited(doc, rng)
    if run.res[0] != 'ok':
        return {'bad': f'construction failed: {run.res}', 'input': '\n'.join(run.log)}
    every = len(exp) > 1 or len(doc) == 1
    diff = run.compare(exp[0]) if every else None
    for num, edit in enumerate(doc[1:], 2):
        if diff:
            break
        diff = run.apply(edit, num)
        if not diff and (every or num == len(doc)):
            diff = run.compare(exp[num - 1] if every else exp[0])
    return {'bad': diff, 'input': '\n'.join(run.log)} if diff else {'input': '\n'.join(run.log)}


def random_history(rng):
    """A long history; the driver keeps track of the number of points only."""
    mode = rng.choice(['explicit', 'explicit', 'line', 'line', 'automatic', 'reciprocal'])
    n = rng.choice([1, 2, 3, 4, 5, 8, 25]) if mode in ('explicit', 'line') else 0

    def twins(n):
        return sorted(rng.sample(range(1, n + 1), 2)) if n > 1 and rng.random() < 0.25 else []
    tetra = mode == 'explicit' and rng.random() < 0.4
    form = rng.choice(['dict', 'text'])
    doc = [{'k': 'init', 'form': form, 'mode': mode, 'np': n, 'twin': twins(n), 'tetra': tetra, 'shifts': mode == 'reciprocal' or (mode == 'automatic' and rng.random() < 0.5),
            'comment': form == 'text' or rng.random() < 0.8}]
    bads = ['entry', 'type'] + (['range', 'point'] if n else [])
    for _ in range(rng.randint(2, 12)):
        opts = ['comment', 'bad']
        if n:
            opts += ['point', 'points', 'delete', 'delete']
        opts += {'explicit': ['tetra'] + (['tetra_volume'] if tetra else []), 'line': ['num'], 'automatic': ['divisions', 'shifts', 'noshifts', 'centering'],
                 'reciprocal': ['generating_vectors', 'shifts', 'noshifts']}[mode]
        k = rng.choice(opts)
        if k == 'bad':
            doc.append({'k': 'bad', 'what': rng.choice(bads)})
        elif k == 'point':
            doc.append({'k': k, 'i': rng.randint(1, n)})
        elif k == 'points':
            n = rng.randint(1, 9)
            doc.append({'k': k, 'np': n, 'twin': twins(n)})
        elif k == 'delete':
            if n > 1:
                doc.append({'k': k, 'i': rng.randint(1, n)})
                n -= 1
        else:
            tetra = tetra or k == 'tetra'
            doc.append({'k': k})
    return doc


def check_P07(check):
    deep = check.thorough
    for name, modes, bads in (('points', '{"explicit", "line"}', '{"entry", "type", "range", "point"}'),
                              ('grids', '{"automatic", "reciprocal"}', '{"entry", "type"}')):
        if wants(check, name):
            res = vp.tlc('KpointsEdit', cfg('SpecMC', MaxLen=(3 if name == 'points' else 4) if deep else (2 if name == 'points' else 3), Modes=modes,
                                            Sizes='{1, 2, 3, 4}' if deep or name == 'points' else '{1}', Bads=bads))
            check.add_tlc(res, name, True)
            check.run(name, cases_of(check, res['records']), judge_edit)
    rng = check.rng('histories')
    docs = [random_history(rng) for _ in range(5000 if deep else 600)]
    res = vp.tlc_docs('KpointsEdit', docs, cfg('SpecDocs', MaxLen=0, Modes='{}', Sizes='{}', Bads='{}'))
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-h{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge_edit)
