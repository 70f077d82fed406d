"""INCAR (P01, P02): texts of specs/IncarRead.tla and edit histories of specs/IncarEdit.tla on the real class."""
import io
import os
import random
import vp

FREE = {'SYS': 'system', 'MAG': 'magmom', 'CON': 'm_constr'}
PLAIN = ['encut', 'ismear', 'algo', 'lorbit', 'lwave', 'nsw', 'prec', 'ldauu', 'rwigs', 'sigma', 'kpar', 'lreal', 'isym', 'ediff',
         'ibrion', 'dipol', 'langevin_gamma', 'ferwe', 'lasph', 'nelm', 'm_constr_', 'gga', 'icharg']
KNOWN = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'incar_tags.txt'), encoding='utf8').read().split()
UNKNOWN = ['foobar', 'encutt', 'my_tag', 'notatag', 'x1']
WORDS = ['Fast', 'Normal', 'Accurate', 'PE', 'auto', 'WAVECAR', 'a', 'N', 'A/B', '4*1.5', '3*0', 'two-words', 'on', 'R2SCAN', 'x_y',
         'v:1', '(a)', '"quoted"', "it's",
         # words that look like numbers at first sight
         '1D5', '0x10', '1e', 'e5', '2D', '3d', '1.2.3', '1-2', '1/2', '--1', '1,2', '1.5a', 'E', '1e5e', '1d-3', '+', '-', '.', '.a.']
TRUE = ['.TRUE.', '.True.', '.true.', '.T.', '.t.']
FALSE = ['.FALSE.', '.False.', '.false.', '.F.', '.f.']


def tags(rng):
    """Concrete names for the abstract tags of one case."""
    others = [t for t in KNOWN if t not in FREE.values()]
    names = rng.sample([t for t in PLAIN if t in KNOWN], 5) + rng.sample(others, 7)
    rng.shuffle(names)
    names = list(dict.fromkeys(names))
    table = dict(zip('ABCDEFGHIJ', names))
    table.update(FREE)
    near = rng.choice([t + 'x' for t in others] + ['x' + t for t in others] + [t[:-1] for t in others if len(t) > 2])
    unknown = rng.sample(UNKNOWN + ([near] if near not in KNOWN else []) * 5, 2)
    unknown = unknown if unknown[0] != unknown[1] else UNKNOWN[:2]
    table.update(U=unknown[0], V=unknown[1])
    return table


def casing(rng, name):
    """The name in some letter case."""
    return rng.choice([name.upper(), name.upper(), name.lower(), name.capitalize(), ''.join(rng.choice([c.upper(), c]) for c in name)])


def word(rng, cls):
    """(text, value) of one word."""
    if cls == 'int':
        text = rng.choice(['{}', '-{}', '+{}', '0{}']).format(rng.choice([rng.randint(0, 9), rng.randint(10, 99999), 123456789012]))
        return text, int(text)
    if cls == 'float':
        text = rng.choice([f'{rng.uniform(-9, 9):.4f}', f'{rng.uniform(0, 9):.3f}E-0{rng.randint(1, 9)}', f'{rng.randint(1, 9)}e-{rng.randint(1, 9)}',
                           f'{rng.randint(1, 9)}E{rng.randint(1, 9)}', f'{rng.randint(0, 500)}.', f'.{rng.randint(1, 99)}', repr(rng.uniform(0.001, 9)),
                           repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)), f'-{rng.randint(1, 99)}.5e+02'])
        return text, float(text)
    if cls == 'bool':
        val = rng.random() < 0.5
        return rng.choice(TRUE if val else FALSE), val
    text = rng.choice(WORDS)
    return text, text


def render(doc, rng, table):
    """Text, and for each lexeme (1-based) its [start, end, value]."""
    text = ''
    where = {}
    tight = rng.random() < 0.2
    for i, lex in enumerate(doc, 1):
        kind = lex['x']
        if kind == 'nl':
            text += rng.choice(['\n', '\n', ' \n', '\t\n']) if not tight else '\n'
            where[i] = (0, 0, None)
            continue
        if kind == 'w':
            if lex['c'] == 'tag':
                shown = casing(rng, table[lex['t']])
                value = shown
            else:
                shown, value = word(rng, lex['c'])
            if text and not text[-1].isspace() and text[-1] not in '=;#':
                text += ' '
        else:
            shown, value = kind, None
        if not tight:
            text += rng.choice(['', '', ' ', '  ', '\t'])
        where[i] = (len(text), len(text) + len(shown), value)
        text += shown
    return text, where


def judge_read(case):
    rng = random.Random(case['salt'])
    table = tags(rng)
    text, where = render(case['doc'], rng, table)
    exp = case['exp']
    if exp['vague']:
        return {'nontrivial': False, 'traces': 0}
    from parsevasp.incar import Incar
    for validate in (True, False):
        source = rng.choice(['string', 'path', 'handle'])
        if source == 'string':
            kwargs = {'incar_string': text}
        elif source == 'path':
            with open('INCAR', 'w', encoding='utf8') as handle:
                handle.write(text)
            kwargs = {'file_path': 'INCAR'}
        else:
            kwargs = {'file_handler': io.StringIO(text)}
        if not validate:
            kwargs['validate_tags'] = False
        res = vp.call(Incar, **kwargs)
        note = f'({source}, validation {"on" if validate else "off"}) {text!r}'
        refuse = exp['refused'] or (validate and exp['unknown'])
        if refuse:
            if res[0] == 'ok':
                return {'bad': f'accepted text that must be refused ({exp["bad"] or "unknown tag"}), giving {res[1].get_dict()}', 'input': note}
            continue
        if res[0] != 'ok':
            return {'bad': f'refused valid text: {res}', 'input': note}
        want = {}
        for ent in exp['entries']:
            key = (table[ent['tag']] if ent['tag'] != '?' else text[where[ent['at']][0]:where[ent['at']][1]]).lower()
            if ent['free']:
                val = text[where[ent['val'][0]][0]:where[ent['val'][-1]][1]] if ent['val'] else ''
            else:
                val = [where[p][2] for p in ent['val']]
                val = val[0] if len(val) == 1 else val
            want[key] = val
        got = vp.call(res[1].get_dict)
        diff = str(got) if got[0] != 'ok' else typed(want, got[1])
        if not diff:
            for key, val in want.items():
                one = vp.call(res[1].get, key)
                diff = diff or (str(one) if one[0] != 'ok' else typed({key: val}, {key: one[1]}, 'lookup'))
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': text, 'nontrivial': bool(exp['entries']) or exp['refused']}


def typed(want, got, path=''):
    """Like vp.deep but int, float and bool are told apart."""
    def kind(val):
        if isinstance(val, bool) or type(val).__name__ == 'bool_':
            return 'bool'
        if isinstance(val, int):
            return 'int'
        if isinstance(val, float):
            return 'float'
        return 'other'
    diff = vp.deep(want, got, path, tol=1e-14)
    if diff:
        return diff
    for key in want:
        a, b = want[key], got[key]
        pairs = list(zip(a, b)) if isinstance(a, list) else [(a, b)]
        if isinstance(a, list) != isinstance(b, (list, tuple)):
            return f'{path}[{key!r}]: expected {a!r}, got {b!r}'
        for x, y in pairs:
            if kind(x) != kind(y):
                return f'{path}[{key!r}]: expected {kind(x)} {x!r}, got {y!r} ({type(y).__name__})'
    return None


def random_text(rng):
    """A long INCAR: many lines over all kinds."""
    kinds = ['int', 'float', 'bool', 'str']
    names = list('ABCDEFGHIJ')[:rng.randint(2, 10)] + (['SYS', 'MAG', 'CON'] if rng.random() < 0.7 else [])
    if rng.random() < 0.15:
        names.append('U')
    doc = []

    def w(cls, t=''):
        return {'x': 'w', 'c': cls, 't': t}

    def comment():
        if rng.random() < 0.3:
            doc.append({'x': '#'})
            for _ in range(rng.randint(0, 5)):
                doc.append(rng.choice([w('str'), w('int'), w('tag', 'A'), {'x': '='}, {'x': ';'}, {'x': '#'}]))

    faulty = rng.random() < 0.15
    for _ in range(rng.randint(1, 40)):
        roll = rng.random()
        if roll < 0.1:
            pass
        elif roll < 0.2:
            doc.append({'x': '#'})
            doc.extend(rng.choice([[w('tag', 'B'), {'x': '='}, w('int')], [w('str')], []]))
        else:
            for j in range(rng.choice([1, 1, 1, 2, 3, 5])):
                if j:
                    doc.append({'x': ';'})
                name = rng.choice(names)
                doc.append(w('tag', name))
                doc.append({'x': '='})
                cls = rng.choice(kinds)
                for _ in range(rng.choice([1, 1, 1, 2, 3, 12, 0] * 5 + [120])):
                    doc.append(w(cls if name not in FREE else rng.choice(kinds + ['tag']), 'C' if cls else ''))
                if faulty and rng.random() < 0.05:
                    doc.append(rng.choice([{'x': '='}, w('int'), w('float'), w('str')]))
            if rng.random() < 0.15:
                doc.append({'x': ';'})
            comment()
        doc.append({'x': 'nl'})
    if rng.random() < 0.3:
        doc.pop()
    for lex in doc:
        if lex.get('c') == 'tag' and not lex['t']:
            lex['t'] = 'A'
    return doc or [{'x': 'nl'}]


def cfg(spec, emit='Emit', **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning {emit}\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def cases_of(check, records):
    recs = sorted(records, key=lambda r: (len(r['doc']), str(r['doc'])))
    return [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)]


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def check_P01(check):
    deep = check.thorough
    if wants(check, 'lexemes'):
        res = vp.tlc('IncarRead', cfg('SpecMC', Mode='"lex"', MaxLen=6 if deep else 5, Tags='{"A", "SYS"}' if not deep else '{"A", "SYS", "U"}',
                                      Kinds='{"int", "str"}', Seps='{}'))
        check.add_tlc(res, 'lexemes', True)
        check.run('lexemes', cases_of(check, res['records']), judge_read, 64)
    if wants(check, 'assignments'):
        res = vp.tlc('IncarRead', cfg('SpecMC', Mode='"asg"', MaxLen=2, Tags='{"A", "B", "SYS", "U"}',
                                      Kinds='{"int", "float", "bool", "str", "ints", "bools", "floats", "strs", "mixif", "mixsi", "mixbf", "none"}',
                                      Seps='{"nl", "semi", "com", "semcom"}' if not deep else '{"nl", "semi", "semnl", "com", "semcom", "skip", "empty"}'))
        check.add_tlc(res, 'assignments', True)
        check.run('assignments', cases_of(check, res['records']), judge_read, 64)
    if wants(check, 'triples'):
        res = vp.tlc('IncarRead', cfg('SpecMC', Mode='"asg"', MaxLen=3 if not deep else 4, Tags='{"A", "B"}', Kinds='{"int", "bools"}',
                                      Seps='{"nl", "semi", "semnl", "com", "semcom", "skip"}'))
        check.add_tlc(res, 'triples', True)
        check.run('triples', cases_of(check, res['records']), judge_read, 64)
    rng = check.rng('texts')
    docs = [random_text(rng) for _ in range(20000 if deep else 1500)]
    res = vp.tlc_docs('IncarRead', docs, cfg('SpecDocs', Mode='"docs"', MaxLen=0, Tags='{}', Kinds='{}', Seps='{}'))
    check.add_tlc(res, 'texts')
    check.run('texts', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-t{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge_read, 16)


# ---------------------------------------------------------------------------------------------- edits

COMMENTS = ['comment', 'énergie en eV/Å', 'why = because; so', 'a # b', 'two words', '', 'x' * 60, '1 2 3']


def concrete(rng, kind):
    """(what is passed, as text; what is passed, as object; value that must be reported)."""
    if kind == 'text':
        text = rng.choice(['my system', '2*1.0 3*-0.6', 'Si bulk', '1 2 3', '.TRUE.', '5', 'a  b', '1.0 1'])
        return text, text, text
    if kind == 'none':
        return '', [], []
    if kind in ('int', 'float', 'bool', 'str'):
        text, val = word(rng, kind)
        return text, val, val
    pairs = [word(rng, kind[:-1]) for _ in range(rng.randint(2, 5))]
    vals = [v for _, v in pairs]
    return rng.choice([' ', '  ']).join(t for t, _ in pairs), vals, list(vals)


BAD = {'tuple': (1, 2), 'nothing': None, 'dict': {'a': 1}, 'mixed': '1 2.5', 'mixed2': 'a 1', 'bytes': b'1',
       'sign': ['a # b', 'Fast;', 'a = b', ['a', 'b#'], ['x;y', 'z'], 'Fast #', '= 3', ['ENCUT=300']], 'break': ['a\nENCUT = 3', 'a\n3', ['a', 'b\n'], '1 2\r\n3']}
BADFREE = ['tuple', 'nothing', 'dict', 'bytes', 'sign', 'break', 'remark']


class Edited:
    """A real Incar driven by a history, with the concrete values standing for the edits."""

    def __init__(self, doc, rng):
        self.rng = rng
        self.names = tags(rng)
        self.values = {}
        self.comments = {}
        self.log = []
        first = doc[0]
        lines, given = [], {}
        for i, item in enumerate(first['sets'], 1):
            text, val, want = concrete(rng, item['kind'])
            name = self.names[item['t']]
            com = rng.choice(COMMENTS) if item['com'] else None
            if com is not None and '#' in com and first['form'] == 'dict':
                com = 'plain'
            self.values[1000 + i] = want
            self.comments[1000 + i] = com
            lines.append(f'{casing(rng, name)} = {text}' + ('' if com is None else f' # {com}'))
            if com is None:
                given = {k: v for k, v in given.items() if k.lower() != name}
                given[casing(rng, name)] = rng.choice([text, val])
            else:
                given = {k: v for k, v in given.items() if k.lower() != name}
                given[name] = f'{text} # {com}'
        from parsevasp.incar import Incar
        self.cls = Incar
        if first['form'] == 'dict':
            self.log.append(f'Incar(incar_dict={given!r})')
            self.res = vp.call(Incar, incar_dict=given)
        else:
            text = '\n'.join(lines) + '\n'
            if not lines:
                text = '# nothing\n'
            self.log.append(f'Incar(incar_string={text!r})')
            self.res = vp.call(Incar, incar_string=text)

    def apply(self, edit, num):
        """Apply one edit; return a complaint or None."""
        inc = self.res[1]
        name = self.names[edit['t']]
        if edit['k'] == 'set':
            text, val, want = concrete(self.rng, edit['kind'])
            com = self.rng.choice(COMMENTS) if edit['com'] else None
            shown = self.rng.choice([text, val])
            self.values[num] = want
            self.comments[num] = com
            self.log.append(f'modify({name!r}, {shown!r}, {com!r})')
            given = casing(self.rng, name)
            got = vp.call(inc.modify, given, shown, com) if com is not None else vp.call(inc.modify, given, shown)
            return None if got[0] == 'ok' else f'{self.log[-1]} failed: {got}'
        if edit['k'] == 'del':
            self.log.append(f'delete({name!r})')
            got = vp.call(inc.delete, name)
            return None if got[0] == 'ok' else f'{self.log[-1]} failed: {got}'
        com = self.rng.choice([None, None, 'note'])
        if edit['kind'] == 'remark':
            value, com = concrete(self.rng, 'text' if edit['t'] in FREE else 'int')[1], self.rng.choice(['a\nb', 'x\nENCUT = 3', 'a\r\nb'])
        else:
            value = BAD[edit['kind']]
        if edit['kind'] in ('sign', 'break'):
            # between words a line break is as good as a blank, but not in a free text
            value = self.rng.choice([v for v in value if edit['kind'] == 'sign' or edit['t'] in FREE or isinstance(v, list)])
        self.log.append(f'modify({name!r}, {value!r}, {com!r})')
        got = vp.call(inc.modify, name, value, com)
        return None if got[0] != 'ok' else f'{self.log[-1]} was accepted'

    def compare(self, ent):
        """All views of the object against the specification's state."""
        inc = self.res[1]
        ent = {} if ent == [] else ent
        want = {self.names[t]: self.values[e['id']] for t, e in ent.items()}
        coms = {self.names[t]: self.comments[e['id']] for t, e in ent.items()}
        got = vp.call(inc.get_dict)
        diff = str(got) if got[0] != 'ok' else typed(want, got[1], 'dictionary')
        if diff:
            return diff
        for key in [self.names[t] for t in ('A', 'B', 'C', 'D', 'SYS', 'MAG', 'CON')]:
            one, two = vp.call(inc.get, key), vp.call(inc.get, key, comment=True)
            if one[0] != 'ok' or two[0] != 'ok':
                return f'lookup of {key}: {one} {two}'
            if key in want:
                diff = typed({key: want[key]}, {key: one[1]}, 'lookup') \
                    or vp.deep([want[key], coms[key]], list(two[1]), f'lookup with comment of {key}')
            else:
                diff = vp.deep(None, one[1], f'absent {key}') or vp.deep([None, None], list(two[1]), f'absent {key}')
            if diff:
                return diff
        text = vp.call(inc.get_string)
        if text[0] != 'ok':
            return f'get_string: {text}'
        text = text[1]
        if sorted(line.split('=')[0].strip().lower() for line in text.splitlines()) != sorted(want):
            return f'text lists other tags: {text!r}'
        diff = self.reread('text', want, {k: None for k in want}, incar_string=text)
        if diff:
            return diff
        for comments in (False, True):
            path = 'INCAR.out'
            if os.path.exists(path):
                os.unlink(path)
            kwargs = {'comments': True} if comments else {}
            done = vp.call(inc.write, file_path=path, **kwargs)
            if done[0] != 'ok':
                return f'write: {done}'
            with open(path) as handle:
                content = handle.read()
            if not comments and content != text:
                return f'written file {content!r} differs from text {text!r}'
            diff = self.reread('file', want, coms if comments else {k: None for k in want}, file_path=path)
            if diff:
                return diff + f' comments={comments} file={content!r}'
        again = vp.call(inc.get_dict)
        return str(again) if again[0] != 'ok' else typed(want, again[1], 'dictionary after writing')

    def reread(self, what, want, coms, **kwargs):
        """Read a serialisation back."""
        res = vp.call(self.cls, **kwargs)
        if res[0] != 'ok':
            return f'{what} cannot be read back: {res} {kwargs}'
        diff = typed(want, res[1].get_dict(), f'{what} read back')
        if diff:
            return diff
        for key, com in coms.items():
            got = res[1].get(key, comment=True)[1]
            if (com or '') != (got or ''):
                return f'{what} read back: comment of {key}: expected {com!r}, got {got!r}'
        return None


def judge_edit(case):
    rng = random.Random(case['salt'])
    doc, exp = case['doc'], case['exp']
    run = Edited(doc, rng)
    if run.res[0] != 'ok':
        return {'bad': f'construction failed: {run.res}', 'input': '\n'.join(run.log)}
    every = len(exp) > 1
    if every:
        diff = run.compare(exp[0])
        if diff:
            return {'bad': diff, 'input': '\n'.join(run.log)}
    for num, edit in enumerate(doc[1:], 2):
        diff = run.apply(edit, num)
        if not diff and (every or num == len(doc)):
            diff = run.compare(exp[num - 1] if every else exp[0])
        if diff:
            return {'bad': diff, 'input': '\n'.join(run.log)}
    if not every and len(doc) == 1:
        diff = run.compare(exp[0])
        if diff:
            return {'bad': diff, 'input': '\n'.join(run.log)}
    return {'input': '\n'.join(run.log)}


def random_history(rng):
    """A long edit history."""
    kinds = ['int', 'float', 'bool', 'str', 'ints', 'floats', 'bools', 'strs', 'none']
    names = list('ABCD') + ['SYS', 'MAG', 'CON']

    def pair():
        t = rng.choice(names)
        return t, 'text' if t in FREE else rng.choice(kinds)
    sets = []
    for _ in range(rng.randint(0, 6)):
        t, kind = pair()
        sets.append({'t': t, 'kind': kind, 'com': rng.random() < 0.3})
    form = rng.choice(['dict', 'text'])
    if form == 'dict':
        sets = list({s['t']: s for s in sets}.values())
    doc = [{'k': 'init', 'form': form, 'sets': sets}]
    for _ in range(rng.randint(3, 14)):
        t, kind = pair()
        roll = rng.random()
        if roll < 0.6:
            doc.append({'k': 'set', 't': t, 'kind': kind, 'com': rng.random() < 0.4})
        elif roll < 0.85:
            doc.append({'k': 'del', 't': t})
        else:
            doc.append({'k': 'bad', 't': t, 'kind': rng.choice(BADFREE if t in FREE else sorted(BAD) + ['remark'])})
    return doc


def check_P02(check):
    deep = check.thorough
    if wants(check, 'pairs'):
        res = vp.tlc('IncarEdit', cfg('SpecMC', MaxLen=2, Tags='{"A", "B", "SYS"}' if deep else '{"A", "SYS"}', MCInits=4,
                                      Kinds='{"int", "float", "bool", "str", "ints", "floats", "bools", "strs", "none", "text"}',
                                      BadKinds='{"tuple", "mixed", "nothing", "sign", "break", "remark"}'))
        check.add_tlc(res, 'pairs', True)
        check.run('pairs', cases_of(check, res['records']), judge_edit)
    if wants(check, 'chains'):
        res = vp.tlc('IncarEdit', cfg('SpecMC', MaxLen=4 if deep else 3, Tags='{"A", "B"}', MCInits=2, Kinds='{"int", "bools"}', BadKinds='{"mixed2"}'))
        check.add_tlc(res, 'chains', True)
        check.run('chains', cases_of(check, res['records']), judge_edit)
    rng = check.rng('histories')
    docs = [random_history(rng) for _ in range(5000 if deep else 500)]
    res = vp.tlc_docs('IncarEdit', docs, cfg('SpecDocs', MaxLen=0, Tags='{}', Kinds='{}', BadKinds='{}', MCInits=0))
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-h{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge_edit)
