"""POSCAR (P03, P04, P05): files of specs/PoscarRead.tla and edit histories of specs/PoscarEdit.tla."""
import io
import os
import random

import numpy as np
import vp

WORDS = {'s': ['Selective dynamics', 'selective', 'S', 'Sel'], 'd': ['Direct', 'direct', 'D', 'DIRECT'],
         'c': ['Cartesian', 'cartesian', 'C', 'cart'], 'k': ['K', 'kartesian'], 'x': ['Xyz', 'foo bar', 'end of file', 'velocities']}
NAMES = vp.PERIODIC


def decimal(value, digits):
    """Exact text of value / 10**digits."""
    sign, value = ('-' if value < 0 else ''), abs(value)
    if digits == 0:
        return f'{sign}{value}'
    return f'{sign}{value // 10 ** digits}.{value % 10 ** digits:0{digits}d}'


def render(doc, rng):
    """(lines, text, units) of a document."""
    up, ul = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2])
    # lengths in some other unit
    us = rng.choice([0] * 12 + [4, 2, -3])
    names = {}
    lines = []
    lead = rng.choice(['', ' ', '   ', '\t'])
    sep = rng.choice([' ', '  ', '    ', '\t'])

    def coord(values, digits):
        out = []
        for v in values:
            text = decimal(v, digits)
            if digits and rng.random() < 0.2:
                text = rng.choice(['{:.8f}', '{:.10E}', '{:.12f}']).format(v / 10 ** digits)
            out.append(text)
        return out
    selective = any(ln['k'] == 'word' and ln['c'] == 's' for ln in doc[7:8])
    nion = None
    for num, ln in enumerate(doc):
        kind = ln['k']
        if kind == 'text':
            lines.append(rng.choice(['# my cell', 'Si8', '# cellule à 8 Å', '  a comment # with sign', '#', 'Direct', '1.0 2.0']))
        elif kind == 'scale':
            value = ln['n'] / ln['d'] * 10.0 ** -us
            lines.append(lead + rng.choice([repr(value), f'{value:.6E}', f'{value:.15f}'] if us else [repr(value), f'{value:.6f}', f'{value:.10f}']) + rng.choice(['', ' ', ' ! scale']))
        elif kind == 'vec':
            lines.append(lead + sep.join(coord(ln['v'], ul)))
        elif kind == 'names':
            for ident in ln['v']:
                if ident not in names:
                    names[ident] = rng.choice([n for n in NAMES if n not in names.values()])
            lines.append(lead + sep.join(rng.choice([str.lower, str, str, str])(names[i]) for i in ln['v']) + rng.choice(['', ' ']))
        elif kind == 'counts':
            lines.append(lead + sep.join(str(v) for v in ln['v']))
        elif kind == 'word':
            lines.append(rng.choice(['', '', '', ' ', '  ']) + rng.choice(WORDS[ln['c']]) + rng.choice(['', '', ' ']))
        elif kind == 'nums':
            extra = ''
            if ln['f']:
                extra = ' ' + ' '.join(rng.choice(['T', 'T', '.TRUE.', 't'] if f else ['F', 'F', '.FALSE.', 'f']) for f in ln['f'])
            if num > 7 and rng.random() < 0.15 and (ln['f'] or not selective):
                extra += rng.choice(['  Si1', ' ! site', ' F F F' if not ln['f'] else ' x'])
            lines.append(lead + sep.join(coord(ln['v'], up)) + extra)
        else:
            lines.append(rng.choice(['', '', ' ', '   ']))
    text = '\n'.join(lines) + rng.choice(['\n', '\n', '\n', ''])
    if doc[-1]['k'] == 'blank' and not text.endswith('\n'):
        text += '\n'
    return lines, text, {'p': 10.0 ** -up, 'sp': 10.0 ** (-us - up), 'sl': 10.0 ** (-us - ul), 'spl': 10.0 ** (-us - up - ul), 'p/l': 10.0 ** (ul - up),
                                'p/sl': 10.0 ** (ul + us - up)}, names


def number(q, units):
    """Concrete vector of an exact quotient."""
    return [n * units[q['u']] / q['d'] for n in q['n']]


def want_read(exp, units, names, direct):
    """The dictionary predicted by the specification, without the comment."""
    sites = []
    for site in exp['sites']:
        sites.append({'specie': names[site['sp']].capitalize(), 'position': number(site['dir' if direct else 'cart'], units),
                      'selective': site['fl'], 'velocities': number(site['vdir' if direct else 'vcart'], units) if site['hasVel'] else None,
                      'predictors': [n * units['p'] for n in site['pred']] if site['hasPred'] else None, 'direct': direct})
    return {'unitcell': [number(v, units) for v in exp['lat']], 'sites': sites}


def judge_read(case):
    from parsevasp.poscar import Poscar
    rng = random.Random(case['salt'])
    exp = case['exp']
    if exp['vague']:
        return {'nontrivial': False, 'traces': 0}
    lines, text, units, names = render(case['doc'], rng)
    with open('POSCAR', 'w', encoding='utf8') as handle:
        handle.write(text)
    for name, kwargs in (('text', {'poscar_string': text}), ('path', {'file_path': 'POSCAR'}), ('handle', {'file_handler': io.StringIO(text)})):
        note = f'({name}) {text!r}'
        kwargs.update(rng.choice([{}, {'conserve_order': True}, {'write_direct': False}]))
        res = vp.call(Poscar, **kwargs)
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': f'accepted, giving {res[1].get_dict()}', 'input': note}
            continue
        if res[0] != 'ok':
            return {'bad': f'refused a valid file: {res}', 'input': note}
        for direct in (True, False):
            got = vp.call(res[1].get_dict, direct=direct)
            if got[0] != 'ok':
                return {'bad': f'get_dict(direct={direct}): {got}', 'input': note}
            got = dict(got[1])
            comment = got.pop('comment', None)
            if comment != lines[0].replace('#', '').strip():
                return {'bad': f'comment {comment!r}', 'input': note}
            diff = vp.deep(want_read(exp, units, names, direct), got, f'direct={direct} ', tol=1e-9)
            if diff:
                return {'bad': diff, 'input': note}
    return {'input': text, 'nontrivial': not exp['refused']}


def random_file(rng, big=False):
    """A larger file."""
    while True:
        lat = [[rng.randint(-30, 60) for _ in range(3)] for _ in range(3)]
        if rng.random() < 0.3:
            lat = [[rng.randint(1, 60) if i == j else 0 for j in range(3)] for i in range(3)]
        if abs(np.linalg.det(np.array(lat, dtype=float))) > 2000:
            break
    doc = [{'k': 'text'}, {'k': 'scale', 'n': rng.choice([1, 1, 2, 3, 7]), 'd': rng.choice([1, 1, 2, 4])}] + [{'k': 'vec', 'v': v} for v in lat]
    if rng.random() < 0.05:
        doc[1]['n'] = -doc[1]['n']
    nsp = rng.choice([1, 1, 2, 3, 5, 8])
    doc.append({'k': 'names', 'v': [rng.choice('abcdefgh') for _ in range(nsp)]})
    counts = [rng.choice([0, 1, 1, 2, 3, 7]) for _ in range(nsp)]
    if big:
        counts[rng.randrange(nsp)] = rng.choice([10, 12, 40, 99, 100, 130])
    if not sum(counts):
        counts[-1] = 2
    doc.append({'k': 'counts', 'v': counts})
    n = sum(counts)
    sel = rng.random() < 0.4
    if sel:
        doc.append({'k': 'word', 'c': 's'})
    doc.append({'k': 'word', 'c': rng.choice('dddcck')})

    def nums(flags=False, big=999):
        return {'k': 'nums', 'v': [rng.randint(-big, big) for _ in range(3)], 'f': [rng.random() < 0.5 for _ in range(3)] if flags else []}
    blank = {'k': 'blank'}
    doc += [nums(sel, 3000) for _ in range(n)]
    tail = rng.choice(['', '', 'b', 'bb', 'v', 'v', 'p', 'vp', 'vb', 'x'])
    if tail.startswith('v'):
        doc += [{'k': 'word', 'c': rng.choice('dc')}] + [nums() for _ in range(n)]
    if tail.endswith('p'):
        doc += [blank] + [nums() for _ in range(n)]
    if tail in ('b', 'bb', 'vb'):
        doc += [blank] * (2 if tail == 'bb' else 1)
    if tail == 'x':
        doc += [{'k': 'word', 'c': 'x'}, {'k': 'word', 'c': 'x'}]
    if rng.random() < 0.1:
        doc = doc[:rng.randint(7, len(doc))]
    return doc


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def cases_of(check, records):
    recs = sorted(records, key=lambda r: (len(r['doc']), str(r['doc'])))
    return [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)]


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def check_P03(check):
    deep = check.thorough
    if wants(check, 'files'):
        res = vp.tlc('PoscarRead', cfg('SpecMC', MaxLen=20, Size=2 if deep else 1, NLat=4 if deep else 2))
        check.add_tlc(res, 'files', True)
        check.run('files', cases_of(check, res['records']), judge_read, 32)
    rng = check.rng('large')
    docs = [random_file(rng, i % 40 == 39) for i in range(10000 if deep else 1200)]
    res = vp.tlc_docs('PoscarRead', docs, cfg('SpecDocs', MaxLen=0, Size=1, NLat=1))
    check.add_tlc(res, 'large')
    check.run('large', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-l{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge_read)


# ---------------------------------------------------------------------------------------------- edits

class Edited:
    """A real Poscar driven by a history."""

    def __init__(self, doc, rng):
        from parsevasp.poscar import Poscar, Site
        self.cls, self.site_cls = Poscar, Site
        self.rng = rng
        self.val, self.names, self.log, self.made = {}, {}, [], {}
        self.shared, self.arrays, self.share = {}, {}, rng.random() < 0.15
        ini = self.ini = doc[0]
        # the harness' own mirror of the cell and the number of sites, needed to phrase edits
        self.cell = 1000
        kwargs = {'conserve_order': ini['conserve'], 'write_direct': ini['wd']}
        prec = rng.choice([None, None, 12, 14])
        if prec:
            kwargs['prec'] = prec
        self.kwargs = kwargs
        ids = self.idents(90000, ini)
        comment = self.value('comment', 1000)
        if ini['form'] == 'text':
            text = self.text(comment, ids, ini)
            self.log.append(f'Poscar(poscar_string={text!r}, {kwargs})')
            self.res = vp.call(Poscar, poscar_string=text, **kwargs)
        else:
            sites = [self.given(i, s, ini['cart'], v, p, as_dict=ini['form'] == 'dicts' or (ini['form'] == 'mixed' and n % 2))
                     for n, (i, s, v, p) in enumerate(zip(ids, ini['sp'], self.flags(ini, 'vel'), self.flags(ini, 'pred')))]
            given = {'comment': comment, 'unitcell': self.value('cell', 1000), 'sites': sites}
            given = {k: given[k] for k in rng.sample(list(given), 3)}
            self.log.append(f'Poscar(poscar_dict with {ini["sp"]}, cart={ini["cart"]}, {ini["form"]}, vel={ini["vel"]}, pred={ini["pred"]}, {kwargs})')
            self.res = vp.call(Poscar, poscar_dict=given, **kwargs)

    @staticmethod
    def idents(base, doc):
        """Identifiers of the sites of a list; the second of a pair of twins has that of the first."""
        twin = doc['twin']
        return [base + (twin[0] if twin and j == twin[1] else j) for j in range(1, len(doc['sp']) + 1)]

    @staticmethod
    def flags(doc, field):
        """Which sites of a list have their own; a twin has what its first has."""
        twin = doc['twin']
        return [doc[field][twin[0] - 1] if twin and j == twin[1] else b for j, b in enumerate(doc[field], 1)]

    def num(self):
        return round(self.rng.choice([self.rng.uniform(-1, 1), self.rng.uniform(0, 1), 0.5, 0.0, 1.0, -0.25, self.rng.uniform(-40, 40)]), 9)

    def value(self, field, ident):
        """Concrete value for an identifier of a field."""
        key = (field, ident)
        if key not in self.val:
            rng = self.rng
            if field == 'comment':
                made = rng.choice(['my cell', 'cellule à 8 Å', 'generated by me', 'Compound: Si.', 'a b 1 2', '', 'Compound: CoSb3. Old comment: starting structure'])
            elif field == 'cell':
                while True:
                    made = np.array([[round(rng.uniform(-2, 6), 7) for _ in range(3)] for _ in range(3)])
                    if rng.random() < 0.3:
                        made = np.diag([round(rng.uniform(2, 9), 7) for _ in range(3)])
                    if abs(np.linalg.det(made)) > 5:
                        break
            elif field == 'flags':
                made = rng.choice([[True] * 3, [True] * 3, [rng.random() < 0.5 for _ in range(3)]])
            else:
                made = [self.num() for _ in range(3)]
            if field not in ('comment', 'cell'):
                twins = [k for k in self.val if k[0] == field and k not in self.shared]
                if self.share and twins and rng.random() < 0.6:
                    # two sites at the same numbers, and of the same objects
                    twin = rng.choice(twins)
                    made = self.val[twin]
                    self.shared[key] = twin
            self.val[key] = made
        return self.val[key]

    def array(self, field, ident):
        """The value as an array; the same array for two sites that share it."""
        if not self.share:
            return np.array(self.value(field, ident))
        self.value(field, ident)
        key = self.shared.get((field, ident), (field, ident))
        if key not in self.arrays:
            self.arrays[key] = np.array(self.value(field, ident))
        return self.arrays[key]

    def name(self, letter):
        if letter not in self.names:
            self.names[letter] = self.rng.choice([n for n in NAMES if n not in self.names.values()])
        return self.names[letter]

    def given(self, ident, letter, cart, has_vel, has_pred, as_dict=False):
        """A site as a caller supplies it: the same object when supplied again."""
        if (ident, as_dict) not in self.made:
            self.made[ident, as_dict] = self.make(ident, letter, cart, has_vel, has_pred, as_dict)
        return self.made[ident, as_dict]

    def make(self, ident, letter, cart, has_vel, has_pred, as_dict):
        pos, vel = self.array('pos', ident), self.array('vel', ident) if has_vel else None
        pred = self.array('pred', ident) if has_pred else None
        specie = self.rng.choice([str, str, str.lower, str.upper])(self.name(letter))
        if as_dict:
            return {'specie': specie, 'position': pos, 'selective': self.value('flags', ident), 'velocities': vel, 'predictors': pred, 'direct': not cart}
        return self.site_cls(specie, pos, selective=self.value('flags', ident), velocities=vel, predictors=pred, direct=not cart)

    def text(self, comment, ids, ini):
        """The initial structure as POSCAR text (one count per site: any order is possible)."""
        def row(v):
            return ' '.join(f'{x:.14f}' for x in v)
        out = ['# ' + comment, '1.0'] + [row(v) for v in self.value('cell', 1000)]
        out.append(' '.join(self.name(s) for s in ini['sp']))
        out.append(' '.join('1' for _ in ids))
        out += ['Selective', 'Cartesian' if ini['cart'] else 'Direct']
        out += [row(self.value('pos', i)) + ' ' + ' '.join('T' if f else 'F' for f in self.value('flags', i)) for i in ids]
        if ini['vel'][0]:
            out += ['Cartesian' if ini['cart'] else 'Direct'] + [row(self.value('vel', i)) for i in ids]
        if ini['pred'][0]:
            out += [''] + [row(self.value('pred', i)) for i in ids]
        return '\n'.join(out) + '\n'

    def want(self, st, sites, direct):
        """Site dictionaries of a specification state."""
        cell = self.value('cell', st['cell'])
        out = []
        for site in sites:
            frame = {}
            for field in ('pos', 'vel'):
                v = np.array(self.value(field, site['id'])) if field == 'pos' or site['vel'] == 1 else np.zeros(3)
                if site['cell']:
                    v = np.linalg.solve(self.value('cell', site['cell']).T, v)
                frame[field] = v if direct else v @ cell
            out.append({'specie': self.name(site['sp']), 'position': frame['pos'].tolist(), 'selective': self.value('flags', site['id']),
                        'velocities': frame['vel'].tolist() if site['vel'] else None,
                        'predictors': [None, self.value('pred', site['id']), [0.0] * 3][site['pred']], 'direct': direct})
        return out

    def compare_dict(self, st):
        """get_dict in both frames and the lookups against the specification's state."""
        for direct in (True, False):
            got = vp.call(self.res[1].get_dict, direct=direct)
            want = {'comment': self.value('comment', st['comment']) if st['comment'] else None,
                    'unitcell': self.value('cell', st['cell']).tolist(), 'sites': self.want(st, st['sites'], direct)}
            diff = str(got) if got[0] != 'ok' else vp.deep(want, got[1], f'direct={direct} ', tol=1e-8)
            if diff:
                return diff
        for tag in ('comment', 'unitcell'):
            one = vp.call(self.res[1].get, tag)
            diff = f'get({tag}): {one}' if one[0] != 'ok' else vp.deep(want[tag], one[1], f'get({tag})')
            if diff:
                return diff
        return None

    def compare_written(self, st):
        """Text and file read back, against the specification's written structure."""
        before = vp.call(self.res[1].get_dict)
        text = vp.call(self.res[1].get_string)
        if text[0] != 'ok':
            return f'get_string: {text}'
        if os.path.exists('POUT'):
            os.unlink('POUT')
        done = vp.call(self.res[1].write, file_path='POUT')
        if done[0] != 'ok':
            return f'write: {done}'
        with open('POUT') as handle:
            if handle.read() != text[1]:
                return 'the written file differs from the text'
        after = vp.call(self.res[1].get_dict)
        if before[0] != 'ok' or after[0] != 'ok':
            return f'get_dict around writing: {before} {after}'
        diff = vp.deep(before[1]['unitcell'].tolist(), after[1]['unitcell']) or vp.deep(self.want(st, st['sites'], True), after[1]['sites'], 'after writing', tol=1e-8)
        if diff:
            return diff
        for source in ({'poscar_string': text[1]}, {'file_path': 'POUT'}):
            back = vp.call(self.cls, **source)
            if back[0] != 'ok':
                return f'cannot be read back: {back}\n{text[1]}'
            got = vp.call(back[1].get_dict)
            if got[0] != 'ok':
                return f'{got}'
            diff = self.compare_back(st, got[1], text[1])
            if diff:
                return f'{diff}\n{text[1]}'
        return None

    def compare_back(self, st, got, text):
        tol = 1e-8
        diff = vp.deep(self.value('cell', st['cell']).tolist(), got['unitcell'], 'unitcell', tol)
        if diff:
            return diff
        lines = text.splitlines()
        names, counts = lines[5].split(), [int(x) for x in lines[6].split()]
        # the comment names what is written, once, and keeps what the user said
        compound = 'Compound: ' + ''.join(n + (str(c) if c != 1 else '') for n, c in zip(names, counts)) + '.'
        said = self.value('comment', st['comment']).replace('#', '').strip() if st['comment'] else ''
        told = got['comment']
        if compound not in told or said not in told or (compound in said and told != said) or (not said and told.count('Compound') > 1):
            return f'comment {told!r} where the user said {said!r}'
        if st['ordered']:
            want = [site for run in st['runs'] for site in run['sites']]
            if names != [self.name(r['sp']) for r in st['runs']] or counts != [len(r['sites']) for r in st['runs']]:
                return f'species header {names} {counts}'
            return vp.deep(self.want(st, want, True), got['sites'], 'read back', tol)
        blocks = {self.name(b['sp']): b['sites'] for b in st['blocks']}
        if sorted(names) != sorted(blocks) or counts != [len(blocks[n]) for n in names]:
            return f'species header {names} {counts}'
        want = [site for n in names for site in blocks[n]]
        return vp.deep(self.want(st, want, True), got['sites'], 'read back', tol)

    def apply(self, e, m):
        """One edit on the real object; a complaint or None."""
        k = self.res[1]
        kind = e['k']
        if kind == 'write':
            sink = io.StringIO()
            got = vp.call(k.write, file_handler=sink)
            self.log.append('write')
            return None if got[0] == 'ok' else f'write failed: {got}'
        if kind == 'bad':
            return self.bad(e['what'])
        if kind == 'site':
            act = ('modify', 'sites', self.given(100 * m, e['sp'], e['cart'], e['vel'], e['pred']), e['i'] - 1)
        elif kind == 'sites':
            act = ('modify', 'sites', [self.given(i, s, e['cart'], v, p) for i, s, v, p in zip(self.idents(100 * m, e), e['sp'], self.flags(e, 'vel'), self.flags(e, 'pred'))])
        elif kind == 'delete':
            act = ('delete_site', e['i'] - 1)
        elif kind == 'cell':
            act = ('modify', 'unitcell', self.value('cell', m))
        elif kind == 'comment':
            act = ('modify', 'comment', self.value('comment', m))
        else:
            act = ('modify', 'comment', None)
        self.log.append(f'{e}: {act[0]}{act[1:]!r}')
        got = vp.call(getattr(k, act[0]), *act[1:])
        return None if got[0] == 'ok' else f'{self.log[-1]} failed: {got}'

    def bad(self, what):
        """An edit that must be refused."""
        k = self.res[1]
        big = len(k.entries['sites']) + self.rng.choice([0, 1, 7])
        site = self.site_cls('Si', np.zeros(3), velocities=np.zeros(3), predictors=np.zeros(3))
        acts = {'entry': [('modify', 'foo', 'bar'), ('modify', 'mycomment', 'bar'), ('modify', 'site', []), ('modify', 'sites2', []), ('modify', 'UNITCELL', np.eye(3))],
                'type': [('modify', 'comment', 5), ('modify', 'comment', ['a']), ('modify', 'unitcell', [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]),
                         ('modify', 'unitcell', np.eye(2)), ('modify', 'unitcell', np.ones(9)), ('modify', 'unitcell', 'cubic'),
                         ('modify', 'sites', 'Si'), ('modify', 'sites', {'a': 1}), ('modify', 'sites', (site,)), ('modify', 'sites', [site, 1]),
                         ('modify', 'sites', ['Si', 'Si']), ('modify', 'sites', [site, None]), ('modify', 'sites', None), ('modify', 'unitcell', None)],
                'range': [('delete_site', big), ('modify', 'sites', site, big), ('delete_site', -big - 1), ('modify', 'sites', site, -big - 1), ('delete_site', '0'), ('delete_site', 0.0), ('modify', 'sites', site, '0')],
                'site': [('modify', 'sites', [0.0, 0.0, 0.0], 0), ('modify', 'sites', np.zeros(3), 0), ('modify', 'sites', 'Si', 0), ('modify', 'sites', None, 0),
                         ('modify', 'unitcell', site, 0), ('modify', 'comment', site, 0)]}
        act = self.rng.choice(acts[what])
        self.log.append(f'{act[0]}{act[1:]!r}')
        got = vp.call(getattr(k, act[0]), *act[1:])
        return f'{self.log[-1]} was accepted' if got[0] == 'ok' else None


def judge_edit(case):
    rng = random.Random(case['salt'])
    doc, exp = case['doc'], case['exp']
    run = Edited(doc, rng)
    if run.res[0] != 'ok':
        return {'bad': f'construction failed: {run.res}', 'input': '\n'.join(run.log)}
    compare = run.compare_written if case['what'] == 'written' else run.compare_dict
    every = len(exp) > 1 or len(doc) == 1
    diff = compare(exp[0]) if every else None
    for num, edit in enumerate(doc[1:], 2):
        if diff:
            break
        diff = run.apply(edit, num)
        if not diff and (every or num == len(doc)):
            diff = compare(exp[num - 1] if every else exp[0])
    return {'bad': diff, 'input': '\n'.join(run.log)} if diff else {'input': '\n'.join(run.log)}


def random_history(rng, edits):
    """A long history over a larger structure."""
    def species(n):
        few = rng.sample('abcdefgh', rng.randint(1, 5))
        return [rng.choice(few) for _ in range(n)]
    def listed(n):
        """Species, now and then with one site listed twice."""
        sp, twin = species(n), []
        if n > 1 and rng.random() < 0.25:
            twin = sorted(rng.sample(range(1, n + 1), 2))
            sp[twin[1] - 1] = sp[twin[0] - 1]
        return {'sp': sp, 'twin': twin, 'vel': having(n, 0.4), 'pred': having(n, 0.3)}

    def having(n, share):
        """All, none, or some."""
        if rng.random() < 0.2:
            return [rng.random() < 0.5 for _ in range(n)]
        return [rng.random() < share] * n
    n = rng.choice([1, 2, 3, 4, 6, 9, 20])
    doc = [{'k': 'init', 'form': rng.choice(['text', 'objects', 'dicts', 'mixed']), **listed(n), 'cart': rng.random() < 0.5,
            'comment': True, 'conserve': rng.random() < 0.5, 'wd': rng.random() < 0.6}]
    if doc[0]['form'] == 'text':
        # a file gives velocities and predictors for all sites or for none
        doc[0].update({k: [doc[0][k][0]] * n for k in ('vel', 'pred')})
    for _ in range(edits):
        k = rng.choice(['comment', 'nocomment', 'cell', 'write', 'bad', 'site', 'site', 'sites', 'delete', 'delete'])
        if k == 'bad':
            doc.append({'k': k, 'what': rng.choice(['entry', 'type', 'range', 'site'])})
        elif k == 'site':
            doc.append({'k': k, 'i': rng.randint(1, n), 'sp': rng.choice('abcdefgh'), 'cart': rng.random() < 0.4, 'vel': rng.random() < 0.4, 'pred': rng.random() < 0.3})
        elif k == 'sites':
            n = rng.randint(1, 8)
            doc.append({'k': k, **listed(n), 'cart': rng.random() < 0.4})
        elif k == 'delete':
            if n > 1:
                doc.append({'k': k, 'i': rng.randint(1, n)})
                n -= 1
        else:
            doc.append({'k': k})
    return doc


FORMS = '{"text", "objects", "dicts", "mixed"}'


def edit_check(check, what, groups, edits, count):
    for name, const in groups:
        if wants(check, name):
            res = vp.tlc('PoscarEdit', cfg('SpecMC', **const))
            check.add_tlc(res, name, True)
            check.run(name, [dict(c, what=what) for c in cases_of(check, res['records'])], judge_edit)
    rng = check.rng('histories')
    docs = [random_history(rng, rng.randint(*edits)) for _ in range(count)]
    res = vp.tlc_docs('PoscarEdit', docs, cfg('SpecDocs', MaxEdits=0, MaxSites=0, NSpecies=1, Conserve='FALSE', Frames=1, Forms='{}', Bads='{}', Mixed='FALSE'))
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(doc=d, exp=r['exp'], what=what, salt=f'{check.seed}-h{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge_edit)


def check_P04(check):
    deep = check.thorough
    edit_check(check, 'written', [
        ('orders', dict(MaxEdits=0, MaxSites=6 if deep else 4, NSpecies=3, Conserve='TRUE', Frames=2, Forms='{"objects"}', Bads='{}', Mixed='FALSE')),
        ('motions', dict(MaxEdits=0, MaxSites=4 if deep else 3, NSpecies=2, Conserve='TRUE', Frames=2, Forms='{"objects", "mixed"}', Bads='{}', Mixed='TRUE')),
        ('edited', dict(MaxEdits=1, MaxSites=3 if deep else 2, NSpecies=2, Conserve='TRUE', Frames=2, Forms='{"text", "dicts"}', Bads='{}', Mixed='TRUE' if deep else 'FALSE')),
    ], (0, 8), 4000 if deep else 500)


def check_P05(check):
    deep = check.thorough
    edit_check(check, 'dict', [
        ('edits', dict(MaxEdits=1, MaxSites=3, NSpecies=2, Conserve='FALSE', Frames=2, Forms=FORMS, Bads='{"entry", "type", "range", "site"}', Mixed='FALSE')),
        ('motions', dict(MaxEdits=1, MaxSites=3 if deep else 2, NSpecies=1, Conserve='FALSE', Frames=2, Forms=FORMS, Bads='{}', Mixed='TRUE')),
        ('pairs', dict(MaxEdits=2, MaxSites=3 if deep else 2, NSpecies=1, Conserve='FALSE', Frames=2 if deep else 1, Forms='{"objects"}' if not deep else FORMS, Bads='{"entry", "type", "range", "site"}', Mixed='FALSE')),
    ], (2, 12), 5000 if deep else 600)
