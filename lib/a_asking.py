"""P35: what is asked before does not matter. Specification: Asking.tla.

Reference answers are taken in processes of their own: an object is made, one question is asked, the process ends."""
import io
import multiprocessing
import pickle
import random
import re

import vp

import a_vasprun
from a_sources import READERS, WRITERS, Subject, plain

ALL = WRITERS + READERS
EVERYTHING = {'sc': [1, 2, 4], 'bands': True, 'dos': True, 'response': True}
LINES = ['Error EDDDAV: Call to ZHEGV failed. Returncode =   3', ' BRMIX: very serious problems', ' WARNING: CNORMN', 'WARNING: DENTET', ' plain',
         'ZBRENT: fatal error in bracketing', 'internal error in subroutine IBZKPT', ' TOO FEW BANDS', 'REAL_OPTLAY: internal error',
         'EDWAV: internal error', ' BRMIX: very serious problems', 'internal error in subroutine SGRCON', 'RHOSYG: internal error']
POOL = {}   # (kind, variant) -> pickled subject
WANT = {}   # (kind, variant, content, question) -> answer


class Asked(Subject):
    """A class with contents that hold something to ask for."""

    def text_xml(self, which):
        rng = self.rng
        doc = a_vasprun.document(rng, EVERYTHING, rng.choice([2, 3]) if which == 'a' else rng.choice([1, 2]), small=True)
        return a_vasprun.Render(doc, rng).text().replace('ISO-8859-1', 'UTF-8', 1)

    def __init__(self, kind, rng, twin):
        self.twin = twin
        super().__init__(kind, rng)

    def content(self, which):
        """The second content is often a twin of the first: the same but for the decimals of its numbers."""
        if which == 'b' and self.twin:
            for _ in range(20):
                text = re.sub(r'(?<=\d\.)\d+', lambda m: ''.join(self.rng.choice('123456789') for _ in m[0]), self.texts['a'])
                if text != self.texts['a'] and vp.call(self.make, 'handle', text)[0] == 'ok':
                    return text
        return super().content(which)

    def text_stream(self, which):
        lines = self.rng.sample(LINES, 6 if which == 'a' else 3)
        return '\n'.join(['vasp.5.4.4 running on 8 total cores'] + lines) + '\n'

    def text_incar(self, which):
        lines = super().text_incar(which).splitlines()
        return '\n'.join(line + self.rng.choice(['', f' # note {n}']) for n, line in enumerate(lines)) + '\n'

    def text_outcar(self, which):
        text = ''
        for _ in range(30):
            text = super().text_outcar(which)
            if 'ELASTIC MODULI' in text and 'magnetization (x)' in text and 'User time' in text:
                break
        return text

    def new(self, content):
        """A new object with this content."""
        obj = self.make('handle', self.texts[content[0]])
        if content.endswith('e'):
            self.edit(obj)
        return obj


def ask(obj, question):
    """The answer, as it is handed out."""
    name, args = question[0], question[1:]
    if name in ('write', 'write comments'):
        target = io.StringIO()
        res = vp.call(obj.write, file_handler=target, **({'comments': True} if name != 'write' else {}))
        return ('ok', target.getvalue()) if res[0] == 'ok' else res
    if name == 'get_energies':
        status, types, form = args
        given = [status] if types == 'default' else [status, types.split('+')]
        return vp.call(obj.get_energies, *given, nosc=form == 'ends')
    if name == 'get comment':
        return vp.call(obj.get, args[0], comment=True)
    if name == 'get_dict' and args:
        return vp.call(obj.get_dict, direct=args[0] == 'direct')
    if name == 'text':
        return vp.call(str, obj)
    if name == 'long text':
        return vp.call(repr, obj)

    def plainly():
        member = getattr(obj, name)
        return member(*args) if callable(member) else member
    return vp.call(plainly)


def written(res):
    """An answer as plain data."""
    return ['ok', plain(res[1])] if res[0] == 'ok' else list(res[:2])


# ------------------------------------------------------------------------- references, each in a new process

def _subject(item):
    kind, variant, salt = item
    return pickle.dumps(Asked(kind, random.Random(salt), variant % 2 == 0))


def _alone(item):
    key, content, question = item
    try:
        sub = pickle.loads(POOL[key])
        obj = sub.new(content)
    except BaseException as exc:  # pylint: disable=broad-except
        return item, ['unmade', type(exc).__name__]
    return item, written(ask(obj, question))


def prepare(check, catalogue, variants):
    """Contents and the answers to every single question about them."""
    ctx = multiprocessing.get_context('fork')
    items = [(kind, v, f'{check.seed}-asking-{kind}-{v}') for kind in ALL for v in range(variants)]
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        for item, text in zip(items, pool.map(_subject, items, chunksize=1)):
            POOL[item[:2]] = text
    items = []
    for kind, v in POOL:
        contents = ['a', 'b'] + (['ae', 'be'] if kind in WRITERS else [])
        items += [((kind, v), c, tuple(q)) for c in contents for q in catalogue[kind]]
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        for (key, content, question), answer in pool.imap_unordered(_alone, items, chunksize=1):
            WANT[key + (content, question)] = answer


# -------------------------------------------------------------------------------------------------- histories

def judge(case):
    rng = random.Random(case['salt'])
    variant = rng.randrange(case['variants'])
    subs, objs, given = {}, [], []
    note = [str(variant)]

    def bad(text):
        return {'bad': f'{text}\n' + '\n'.join(note), 'input': '\n'.join(note)}

    def look(number, question, content, when):
        kind = case['objs'][number - 1]['kind']
        raw = ask(objs[number - 1], question)
        got = written(raw)
        diff = vp.deep(WANT[kind, variant, content, tuple(question)], got, f'{kind} {question}')
        return raw, got, diff and f'{when}: {diff}'

    asked = 0
    for step in case['trail']:
        note.append(str(step))
        if step['k'] == 'make':
            kind = step['kind']
            if kind not in subs:
                subs[kind] = pickle.loads(POOL[kind, variant])
            res = vp.call(subs[kind].new, step['c'])
            if res[0] != 'ok':
                return bad(f'{kind} cannot be made: {res}')
            objs.append(res[1])
        elif step['k'] == 'edit':
            res = vp.call(subs[case['objs'][step['o'] - 1]['kind']].edit, objs[step['o'] - 1])
            if res[0] != 'ok':
                return bad(f'the edit fails: {res}')
        else:
            answer = case['held'][asked]
            asked += 1
            raw, got, diff = look(answer['o'], answer['q'], answer['c'], 'asked')
            if diff:
                return bad(diff)
            given.append((raw, got))
    # everything once more, in any order
    rest = [(o, q) for o in range(1, len(objs) + 1) for q in CATALOGUE[case['objs'][o - 1]['kind']]]
    rng.shuffle(rest)
    if len(rest) > 120:
        rest = rest[:120]
    for o, question in rest:
        _, _, diff = look(o, question, case['objs'][o - 1]['c'], 'asked at the end')
        if diff:
            note.append(f'then asked: {rest[:rest.index((o, question)) + 1][-12:]}')
            return bad(diff)
    for answer, (raw, got) in zip(case['held'], given):
        if answer['firm']:
            diff = vp.deep(got, written(raw), f'what {answer["q"]} handed out before')
            if diff:
                return bad(diff)
    return {'input': '\n'.join(note)}


CATALOGUE = {}


def check_P35(check):
    deep = check.thorough
    rng = check.rng('asking')
    variants = 6 if deep else 3
    kinds = '{' + ', '.join(f'"{k}"' for k in ALL) + '}'
    cfg = f'SPECIFICATION SpecMC\nINVARIANTS Meaning Catalogue Emit\nCONSTANTS\n  MCKinds = {kinds}\n  MCSteps = 3\n'
    res = vp.tlc('Asking', cfg)
    check.add_tlc(res, 'pairs', True)
    CATALOGUE.update([r for r in res['records'] if 'catalogue' in r][0]['catalogue'])
    for kind in CATALOGUE:
        CATALOGUE[kind].sort()
    prepare(check, CATALOGUE, variants)
    recs = sorted((r for r in res['records'] if 'catalogue' not in r), key=str)
    small = [r for r in recs if not r['objs'][0]['kind'].startswith('xml')]
    large = [r for r in recs if r['objs'][0]['kind'].startswith('xml')]
    if not deep:
        small, large = rng.sample(small, min(len(small), 1500)), rng.sample(large, 1200)
    recs = small + large
    check.run('pairs', [dict(rec, variants=variants, salt=f'{check.seed}-pairs-{i}') for i, rec in enumerate(recs)], judge)
    docs = []
    for _ in range(8000 if deep else 900):
        mine = [rng.choice(ALL) for _ in range(rng.choice([1, 1, 2, 3]))]
        doc, made, edited = [], [], set()
        for _ in range(rng.choice([4, 8, 16, 30])):
            if not made or (len(made) < 5 and rng.random() < 0.15):
                made.append(rng.choice(mine))
                doc.append({'k': 'make', 'kind': made[-1], 'c': rng.choice('ab')})
                continue
            o = rng.randint(1, len(made))
            if made[o - 1] in WRITERS and rng.random() < 0.1:
                doc.append({'k': 'edit', 'o': o})
            elif rng.random() < 0.3 and len(doc) > 2 and doc[-1]['k'] == 'ask':
                # the same question again, or of another object of this class
                again = dict(rng.choice([d for d in doc if d['k'] == 'ask']))
                again['o'] = rng.choice([n for n, k in enumerate(made, 1) if k == made[again['o'] - 1]])
                doc.append(again)
            else:
                doc.append({'k': 'ask', 'o': o, 'q': rng.choice(CATALOGUE[made[o - 1]])})
        docs.append(doc)
    res = vp.tlc_docs('Asking', docs, 'SPECIFICATION SpecDocs\nINVARIANTS Meaning Emit\nCONSTANTS\n  MCKinds = {}\n  MCSteps = 0\n')
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(rec, variants=variants, salt=f'{check.seed}-histories-{i}') for i, rec in enumerate(res['records'])], judge)
