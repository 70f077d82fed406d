"""Sources and targets (P26): histories of specs/Sources.tla on every class."""
import builtins
import io
import os
import pathlib
import random

import numpy as np
import vp

import a_chgcar
import a_doscar
import a_eigenval
import a_outcar
import a_potcar
import a_vasprun

WRITERS = ['incar', 'poscar', 'poscar-cart', 'kpoints-auto', 'kpoints-explicit', 'kpoints-line']
READERS = ['outcar', 'doscar', 'eigenval', 'chgcar', 'potcar', 'stream', 'xml', 'xml-event']
USAGE = {'xml': (10, 510), 'xml-event': (10, 510)}


def plain(val, depth=0):
    """Any value the classes report, as comparable plain data."""
    if depth > 8:
        return '...'
    if hasattr(val, 'tolist'):
        val = val.tolist()
    if isinstance(val, dict):
        return {str(k): plain(v, depth + 1) for k, v in val.items()}
    if isinstance(val, (list, tuple)):
        return [plain(v, depth + 1) for v in val]
    if isinstance(val, float) and val != val:
        return 'nan'
    if val is None or isinstance(val, (bool, int, float, str)):
        return val
    if isinstance(val, complex):
        return [val.real, val.imag]
    if hasattr(val, 'get_direct'):
        return [plain(x, depth + 1) for x in vars(val).values()]
    if hasattr(val, 'shortname'):
        return ['message', val.shortname, val.kind, val.message]
    if hasattr(val, 'pattern'):
        return val.pattern
    return type(val).__name__


class Subject:
    """One class with two contents, rendered as text."""

    def __init__(self, kind, rng):
        self.kind = kind
        self.rng = rng
        self.writer = kind in WRITERS
        self.base = kind.split('-')[0]
        self.options = {}
        if kind == 'incar':
            from parsevasp.incar import Incar as cls
        elif self.base == 'poscar':
            from parsevasp.poscar import Poscar as cls
            self.options = {'write_direct': kind == 'poscar', 'conserve_order': rng.random() < 0.5}
            self.moving, self.direct = rng.random() < 0.3, rng.random() < 0.3
        elif self.base == 'kpoints':
            from parsevasp.kpoints import Kpoints as cls
        elif kind == 'outcar':
            from parsevasp.outcar import Outcar as cls
        elif kind == 'doscar':
            from parsevasp.doscar import Doscar as cls
        elif kind == 'eigenval':
            from parsevasp.eigenval import Eigenval as cls
        elif kind == 'chgcar':
            from parsevasp.chgcar import Chgcar as cls
        elif kind == 'potcar':
            from parsevasp.potcar import Potcar as cls
        elif kind == 'stream':
            from parsevasp.stream import Stream as cls
            self.options = {'history': rng.random() < 0.5}
        else:
            from parsevasp.vasprun import Xml as cls
            self.options = {'event': kind == 'xml-event'}
        self.cls = cls
        self.dicts, self.loot = {}, None
        self.style = rng.choice(['entry', 'shared', 'shared', 'place'])
        self.texts = {}
        for content in 'ab':
            self.texts[content] = self.content(content)
        self.want = {}
        self.canonical = {}

    def content(self, which):
        """A text of this class that it can read, long for a and short for b."""
        for _ in range(200):
            text = getattr(self, 'text_' + self.base)(which)
            res = vp.call(self.make, 'handle', text)
            if res[0] == 'ok' and text not in self.texts.values():
                return text
        raise AssertionError('no text can be read as ' + self.kind)

    def text_incar(self, which):
        rng = self.rng
        tags = {'a': ['ENCUT = %d' % rng.randint(200, 900), 'ISMEAR = -5', 'ALGO = Fast', 'LWAVE = .TRUE.', 'MAGMOM = 1.5 2.5 -1.5'],
                'b': ['NSW = %d' % rng.randint(1, 99), 'SYSTEM = %s' % rng.choice(['Ni', 'α-Ni 3 Å', 'été']), 'SIGMA = 0.05']}[which]
        rng.shuffle(tags)
        return '\n'.join(tags) + rng.choice(['\n', ''])

    def text_poscar(self, which):
        rng = self.rng
        species, counts = (['Si', 'O'], [2, 3]) if which == 'a' else (['Ni'], [1])
        rows = [[round(rng.uniform(0, 0.99), 6) for _ in range(3)] for _ in range(sum(counts))]
        name = ''.join(s + (str(c) if c > 1 else '') for s, c in zip(species, counts))
        accent = rng.choice(['', ' Å', ' αβ'])
        lines = [f'# Compound: {name}. Old comment: {which} {rng.randint(0, 999)}{accent}', '1.0', f'{rng.randint(3, 9)} 0 0', '0.5 4 0', '0 0 5.5', ' '.join(species),
                 ' '.join(map(str, counts))]
        sel = rng.random() < 0.5
        if sel:
            lines.append('Selective dynamics')
        lines.append('Direct')
        lines += [' '.join('%.6f' % x for x in r) + (' T F T' if sel else '') for r in rows]
        if rng.random() < 0.3:
            lines += ['', *[' '.join('%.6f' % rng.uniform(-1, 1) for _ in range(3)) for _ in rows]]
        return '\n'.join(lines) + '\n'

    def text_kpoints(self, which):
        rng = self.rng
        head = f'# {which} {rng.randint(0, 999)}' + rng.choice(['', ' Å', ' Γ-X'])
        if self.kind == 'kpoints-auto':
            lines = [head, '0', 'Gamma' if which == 'a' else 'Monkhorst-Pack', ' '.join(str(rng.randint(1, 12)) for _ in range(3)),
                     '0.5 0.0 0.25' if which == 'a' else '0 0 0']
        else:
            count = 6 if which == 'a' else 2
            line = self.kind == 'kpoints-line'
            lines = [head, str(rng.randint(4, 40) if line else count)] + (['Line-mode'] if line else []) + ['Reciprocal']
            for i in range(count):
                lines.append(' '.join('%.5f' % rng.uniform(-0.5, 0.5) for _ in range(3)) + ('' if line else ' %.3f' % rng.uniform(0.1, 2)))
                if line and i % 2 and i < count - 1:
                    lines.append('')
        return '\n'.join(lines) + '\n'

    def text_outcar(self, which):
        return '\n'.join(a_outcar.render(a_outcar.history(self.rng, False), self.rng, vp.Values(self.rng))) + '\n'

    def text_doscar(self, which):
        while True:
            doc = a_doscar.random_file(self.rng)
            if not doc[0]['nc']:
                return '\n'.join(a_doscar.render(doc, self.rng)[0]) + '\n'

    def text_eigenval(self, which):
        return '\n'.join(a_eigenval.render(a_eigenval.random_file(self.rng), self.rng)[0]) + '\n'

    def text_chgcar(self, which):
        return a_chgcar.render(a_chgcar.random_file(self.rng), self.rng)[0]

    def text_potcar(self, which):
        return a_potcar.render(a_potcar.random_file(self.rng), self.rng)[0]

    def text_stream(self, which):
        lines = {'a': [' Error EDDDAV: Call to ZHEGV failed. Returncode =   3', ' BRMIX: very serious problems', 'plain', 'internal error'],
                 'b': ['WARNING: random wavefunctions but no delay for mixing, default for NELMDL']}[which]
        lines = ['running on 8 total cores'] + lines
        self.rng.shuffle(lines)
        return '\n'.join(lines) + '\n'

    def text_xml(self, which):
        rng = self.rng
        parts = rng.choice([{'struct': 1, 'forces': 1, 'energy': 2}, {'struct': 1, 'forces': 1, 'energy': 1, 'eig': 1, 'dos': 1}])
        return a_vasprun.Render(a_vasprun.document(rng, parts, 2 if which == 'a' else 1, small=True), rng).text().replace('ISO-8859-1', 'UTF-8', 1)

    # ------------------------------------------------------------------------------ the real object

    def dictionary(self, content):
        """The same content as a dictionary, the same one each time."""
        if content not in self.dicts:
            self.dicts[content] = self.new_dictionary(content)
            self.dicts[content + ' as given'] = plain(self.dicts[content])
        return self.dicts[content]

    def new_dictionary(self, content):
        """The content as a dictionary, from a fresh object."""
        obj = self.make('handle', self.texts[content])
        res = obj.get_dict()
        if self.base == 'kpoints':
            from parsevasp.kpoints import Kpoint
            if res['points'] is not None:
                res['points'] = [Kpoint(np.array(p[0]), p[1], p[2]) for p in res['points']]
        if self.base == 'poscar':
            from parsevasp.poscar import Site
            if self.rng.random() < 0.6:
                res = obj.get_dict(direct=self.rng.random() < 0.5)
            if self.rng.random() < 0.7:
                res['sites'] = [Site(s['specie'], s['position'], selective=s['selective'], velocities=s['velocities'],
                                     predictors=s['predictors'], direct=s['direct']) for s in res['sites']]
        return res

    def handle(self, text):
        """An open handle with this text, in some form."""
        forms = ['text', 'file']
        if self.base == 'xml':
            forms += ['bytes', 'binary']
        form = self.rng.choice(forms)
        if form != 'file' and self.rng.random() < 0.2:
            # line endings of other systems
            text = text.replace('\n', '\r\n')
        if form == 'text':
            return io.StringIO(text)
        if form == 'bytes':
            return io.BytesIO(text.encode())
        with open('given', 'w', encoding='utf8', newline='') as out:
            out.write(text)
        return open('given', 'r', encoding='utf8') if form == 'file' else open('given', 'rb')

    def make(self, form, text):
        """An object from a text in a simple handle."""
        assert form == 'handle'
        return self.cls(file_handler=io.StringIO(text), **self.options)

    def observe(self, obj):
        """All the object reports."""
        res = {}
        if self.writer:
            got = vp.call(obj.get_string)
            res['string'] = got[1] if got[0] == 'ok' else list(got)
            res['dict'] = plain(obj.get_dict())
            if self.base == 'poscar':
                # the order of sites is part of the text already
                res['dict']['sites'] = sorted(res['dict']['sites'], key=str)
            return res
        for name in sorted(dir(self.cls)):
            if name.startswith('_'):
                continue
            member = getattr(self.cls, name)
            if isinstance(member, property):
                got = vp.call(lambda name=name: getattr(obj, name))
            elif name.startswith('get_') and callable(member):
                got = vp.call(getattr(obj, name))
                if got[0] == 'exc' and got[1] == 'TypeError':
                    continue
            else:
                continue
            res[name] = plain(list(got))
        return res

    def given(self):
        """What edits of any object put into it: the same list of the same elements each time."""
        if self.loot is None:
            if self.base == 'poscar':
                from parsevasp.poscar import Site
                self.loot = [Site(name, np.array(pos), velocities=np.array([0.5, 0.25, 0.125]) if self.moving else None, direct=self.direct)
                             for name, pos in (('Fe', [0.5, 0.75, 0.125]), ('Fe', [0.25, 0.25, 0.5]), ('S', [0.125, 0.5, 0.25]))]
            elif self.kind == 'kpoints-auto':
                self.loot = [7, 8, 9]
            elif self.base == 'kpoints':
                from parsevasp.kpoints import Kpoint
                self.loot = [Kpoint(np.array([0.125 * i, 0.25, 0.5]), 1.0, True) for i in range(4)]
            else:
                self.loot = [1.25, 1.5]
            self.loot_as_given = plain(self.loot)
        return self.loot

    def changed(self):
        """What has become different of the dictionaries and lists the objects were given."""
        for content in 'ab':
            if content in self.dicts:
                diff = vp.deep(self.dicts[content + ' as given'], plain(self.dicts[content]))
                if diff:
                    return f'the dictionary given: {diff}'
        if self.loot is not None:
            diff = vp.deep(self.loot_as_given, plain(self.loot))
            return f'the list given: {diff}' if diff else None
        return None

    def edit(self, obj):
        """One edit, which leaves the object the same when made twice."""
        if self.style == 'shared':
            if self.base == 'incar':
                obj.modify('rwigs', self.given())
            elif self.base == 'poscar':
                obj.modify('sites', self.given())
                obj.delete_site(0)
            elif self.kind == 'kpoints-auto':
                obj.modify('divisions', self.given())
            else:
                obj.modify('points', self.given())
                obj.delete_point(0)
                obj.delete_point(0)
            return
        if self.style == 'place' and self.base == 'poscar':
            from parsevasp.poscar import Site
            old = obj.get_dict()['sites'][0]
            obj.modify('sites', Site(old['specie'], np.array([0.5, 0.25, 0.75]), selective=old['selective'], velocities=old['velocities'],
                                     predictors=old['predictors']), 0)
            return
        if self.style == 'place' and self.base == 'kpoints' and self.kind != 'kpoints-auto':
            from parsevasp.kpoints import Kpoint
            obj.modify('points', Kpoint(np.array([0.5, 0.25, 0.75]), 1.0, True), 0)
            return
        if self.base == 'incar':
            from parsevasp.incar import Incar, IncarItem
            entries = obj.entries
            entries['nelm'] = Incar(incar_string='NELM = 77').entries['nelm']
        elif self.base == 'poscar':
            obj.modify('unitcell', np.array([[7.0, 0, 0], [0, 7.5, 0], [0, 0.25, 8.0]]))
        elif self.kind == 'kpoints-auto':
            obj.modify('divisions', [7, 8, 9])
        elif self.kind == 'kpoints-line':
            obj.modify('num_kpoints', 77)
        else:
            obj.modify('comment', 'edited')

    def reference(self):
        """What fresh objects of each content report and write."""
        for content in 'ab':
            self.loot = None
            obj = self.make('handle', self.texts[content])
            self.want[content] = self.observe(obj)
            if self.writer:
                self.canonical[content] = obj.get_string()
                self.edit(obj)
                self.want[content + 'e'] = self.observe(obj)
                self.canonical[content + 'e'] = obj.get_string()
        self.loot = None


class Opened:
    """Remembers the files opened meanwhile."""

    def __enter__(self):
        self.files = []
        self.real = builtins.open

        def opening(*args, **kwargs):
            res = self.real(*args, **kwargs)
            self.files.append(res)
            return res
        builtins.open = opening
        return self

    def __exit__(self, *exc):
        builtins.open = self.real


def judge(case):
    rng = random.Random(case['salt'])
    sub = Subject(case['kind'], rng)
    sub.reference()
    for name in os.listdir('.'):
        if os.path.isdir(name):
            os.rmdir(name)
        else:
            os.unlink(name)
    os.mkdir('dir')
    with open('p', 'w', encoding='utf8') as handle:
        handle.write(sub.texts['a'])
    path = {'p': 'p', 'q': 'q', 'gone': 'nosuch/file', 'dir': 'dir'}
    style = rng.choice([str, os.path.abspath, pathlib.Path])
    target = io.StringIO() if rng.random() < 0.5 else open('h', 'w+', encoding='utf8')
    objs = [None, None]
    note = [case['kind'], str(sub.options), style.__name__]

    def bad(text):
        return {'bad': text, 'input': '\n'.join(note) + '\n\ntext a:\n' + sub.texts['a'][:800] + '\ntext b:\n' + sub.texts['b'][:800]}

    for step, exp in zip(case['doc'], case['exp']):
        note.append(str({k: v for k, v in step.items() if v != '-'}))
        given = None
        if step['k'] == 'make':
            kwargs = dict(sub.options)
            if step['path'] != '-':
                kwargs['file_path'] = style(path[step['path']])
            if step['handle'] != '-':
                kwargs['file_handler'] = given = sub.handle(sub.texts[step['handle']])
            if step['text'] != '-':
                kwargs[sub.base + '_string'] = sub.texts[step['text']].replace('\n', rng.choice(['\n', '\n', '\r\n']))
            if step['dict'] != '-':
                kwargs[sub.base + '_dict'] = sub.dictionary(step['dict'])
            if not sub.writer and {'text', 'dict'} & {k for k in ('text', 'dict') if step[k] != '-'}:
                raise vp.Machinery('a reader was given text')
            res = vp.call(sub.cls, **kwargs)
            if res[0] == 'ok' and exp['out'] == 'ok':
                objs[step['o'] - 1] = res[1]
            if given is not None and given.closed:
                return bad('the handle read was closed')
        elif step['k'] == 'write':
            kwargs = {}
            if step['path'] != '-':
                kwargs['file_path'] = style(path[step['path']])
            if step['handle']:
                kwargs['file_handler'] = target
            with Opened() as opened:
                res = vp.call(objs[step['o'] - 1].write, **kwargs)
            if [f for f in opened.files if not f.closed]:
                return bad('the written file was left open')
        elif step['k'] == 'edit':
            res = vp.call(sub.edit, objs[step['o'] - 1])
        elif step['k'] == 'mark':
            target.write('MARK\n')
            res = ('ok', None)
        else:
            with open(path[step['path']], 'w', encoding='utf8') as handle:
                handle.write(sub.texts[step['c']])
            res = ('ok', None)
        # the outcome
        out = exp['out']
        codes = {'usage': USAGE.get(case['kind'], (10,)), 'nofile': (14,)}
        if out == 'ok' and res[0] != 'ok':
            return bad(f'{step} failed: {res}')
        if out != 'ok' and res[0] == 'ok':
            return bad(f'{step} should be refused ({out})')
        if out in codes and not (res[0] == 'exit' and res[1] in codes[out]) and \
                not (case['kind'] == 'potcar' and out == 'usage' and step['k'] == 'make' and res[:2] == ('exc', 'ValueError')) and \
                not (sub.base == 'xml' and out == 'nofile' and res[0] == 'exit' and res[1] in (14, 16, 508)):
            return bad(f'{step} should be refused as {out} (exit {codes[out]}), got {res}')
        # what has become of everything
        if target.closed:
            return bad('the handle written to was closed')
        for name in ('p', 'q'):
            want = exp['fs'][name]
            content = None
            if os.path.exists(name):
                with open(name, encoding='utf8') as handle:
                    content = handle.read()
            if want['c'] == 'absent':
                if content is not None:
                    return bad(f'file {name} was created: {content[:200]!r}')
            elif content != (sub.texts if want['raw'] else sub.canonical)[want['c']]:
                return bad(f'file {name} holds {content and content[:600]!r}, expected {want}')
        if not isinstance(target, io.StringIO):
            target.flush()
            with open('h', encoding='utf8') as handle:
                content = handle.read()
        else:
            content = target.getvalue()
        want = ''.join('MARK\n' if c == 'mark' else sub.canonical[c] for c in exp['hnd'])
        if content != want:
            return bad(f'the handle got {content[-900:]!r}, expected {want[-900:]!r}')
        extra = set(os.listdir('.')) - {'p', 'q', 'h', 'dir', 'given'}
        if extra or os.listdir('dir'):
            return bad(f'unexpected files {sorted(extra)}')
        diff = sub.changed()
        if diff:
            return bad(diff)
        for number, held in enumerate(exp['objs']):
            if held == 'none':
                continue
            got = sub.observe(objs[number])
            diff = vp.deep(sub.want[held], got)
            if diff:
                return bad(f'object {number + 1} should hold {held}: {diff}')
    return {'input': '\n'.join(note)}


def cfg(spec, length, classes):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n  MaxLen = {length}\n  MCClasses = {classes}\n'


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def random_history(rng):
    cls = rng.choice(['writer', 'reader'])
    forms = ['path', 'handle', 'text', 'dict'] if cls == 'writer' else ['path', 'handle']

    def make(o):
        some = rng.sample(forms, rng.choice([1, 1, 1, 1, 1, 1, 2, min(3, len(forms)), 0]))
        return {'k': 'make', 'o': o, 'path': rng.choice(['p', 'p', 'q', 'q', 'gone', 'dir']) if 'path' in some else '-',
                **{f: rng.choice('ab') if f in some else '-' for f in ('handle', 'text', 'dict')}}
    steps = [make(1), make(2)]
    for _ in range(rng.choice([4, 8, 14])):
        o = rng.choice([1, 2])
        kind = rng.choice(['make', 'make', 'write', 'write', 'write', 'edit', 'mark', 'put'])
        if kind == 'make':
            steps.append(make(o))
        elif kind == 'write':
            target = rng.choice(['p', 'p', 'q', 'q', 'h', 'h', 'gone', 'dir', 'both', 'none'])
            steps.append({'k': 'write', 'o': o, 'path': {'h': '-', 'none': '-', 'both': rng.choice('pq')}.get(target, target), 'handle': target in ('h', 'both')})
        elif kind == 'edit':
            steps.append({'k': 'edit', 'o': o})
        elif kind == 'put':
            steps.append({'k': 'put', 'path': rng.choice('pq'), 'c': rng.choice('ab')})
        else:
            steps.append({'k': 'mark'})
    return {'cls': cls, 'steps': steps}


def check_P26(check):
    deep = check.thorough
    rng = check.rng('kinds')
    if wants(check, 'pairs'):
        res = vp.tlc('Sources', cfg('SpecMC', 2, '{"writer", "reader"}'))
        check.add_tlc(res, 'pairs', True)
        recs = sorted(res['records'], key=lambda r: str(r['doc']))
        cases = []
        for i, rec in enumerate(recs):
            kinds = WRITERS if rec['cls'] == 'writer' else READERS
            for kind in kinds if deep else [kinds[i % len(kinds)], kinds[(i * 5 + i // len(kinds)) % len(kinds)]]:
                cases.append(dict(kind=kind, doc=rec['doc'], exp=rec['exp'], salt=f'{check.seed}-p{i}'))
        check.run('pairs', cases, judge)
    if wants(check, 'single'):
        res = vp.tlc('Sources', cfg('SpecMC', 1, '{"writer", "reader"}'))
        check.add_tlc(res, 'single', True)
        recs = sorted(res['records'], key=lambda r: str(r['doc']))
        check.run('single', [dict(kind=kind, doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-s{i}') for i, r in enumerate(recs)
                             for kind in (WRITERS if r['cls'] == 'writer' else READERS)], judge)
    if wants(check, 'triples'):
        res = vp.tlc('Sources', cfg('SpecMC', 3, '{"writer", "reader"}'))
        check.add_tlc(res, 'triples', True)
        recs = sorted(res['records'], key=lambda r: str(r['doc']))
        recs = recs if deep else rng.sample(recs, 1500)
        check.run('triples', [dict(kind=rng.choice(WRITERS if r['cls'] == 'writer' else READERS), doc=r['doc'], exp=r['exp'],
                                   salt=f'{check.seed}-t{i}') for i, r in enumerate(recs)], judge)
    rng = check.rng('histories')
    docs = [random_history(rng) for _ in range(6000 if deep else 800)]
    res = vp.tlc_docs('Sources', docs, cfg('SpecDocs', 0, '{}'))
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(kind=rng.choice(WRITERS if r['cls'] == 'writer' else READERS), doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-h{i}')
                            for i, r in enumerate(res['records'])], judge)
