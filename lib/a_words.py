"""P33: words, lines of words, lines chosen from files. Specification: Words.tla."""
import io
import os
import random

import vp

TRUE = ['.True.', '.TRUE.', '.true.', '.t.', '.T.']
FALSE = ['.False.', '.FALSE.', '.false.', '.f.', '.F.']
LETTERS = 'abcghijklmnoqrsuvwxyzADGKMNQRXZ'
NOTHING = {3: ['nan', 'inf', 'NaN', 'INF', 'Inf'], 8: ['infinity', 'Infinity', 'INFINITY']}
TAGS = ['ALGO', 'PREC', 'GGA', 'METAGGA', 'ISMEAR', 'LREAL', 'ENCUT', 'SIGMA', 'LWAVE']


def spell(signs, rng):
    """Text of a word."""
    text = ''
    i = 0
    while i < len(signs):
        run = 0
        while i + run < len(signs) and signs[i + run] == 'x':
            run += 1
        if run in NOTHING and rng.random() < 0.5:
            text += rng.choice(NOTHING[run])
            i += run
            continue
        c = signs[i]
        text += {'d': lambda: rng.choice('0123456789'), 's': lambda: rng.choice('+-'), 'p': lambda: '.', 'e': lambda: rng.choice('eE'),
                 'x': lambda: rng.choice(LETTERS), 'u': lambda: rng.choice('_*:/@&,_'), 'T': lambda: rng.choice(TRUE), 'F': lambda: rng.choice(FALSE)}[c]()
        i += 1
    return text


def same(got, want):
    return type(got) is type(want) and got == want


def judge_word(case):
    from parsevasp import utils
    from parsevasp.incar import Incar
    rng = random.Random(case['salt'])
    text = spell(case['word'], rng)
    if case['class'] == 'free':
        return {'traces': 0, 'nontrivial': False}
    if case['class'] in ('int', 'float') and len(text) > 300:
        return {'traces': 0, 'nontrivial': False}
    want = {'int': int, 'float': float, 'true': lambda t: True, 'false': lambda t: False, 'word': str}[case['class']](text)
    note = f'{text!r}, which is {case["class"]}'
    tag = rng.choice(TAGS)
    ways = {'text': lambda: Incar(incar_string=f'{tag} = {text}\n'),
            'tight': lambda: Incar(incar_string=f'{tag}={text};\n'),
            'several': lambda: Incar(incar_string=f'NSW = 1\n{tag} = {text} {text}\t{text} # {text}\n'),
            'modify': lambda: Incar(incar_string='NSW = 1\n'),
            'dictionary': lambda: Incar(incar_dict={tag.lower(): text})}
    for way in ['text', rng.choice(['tight', 'several', 'modify', 'dictionary'])]:
        res = vp.call(ways[way])
        if res[0] == 'ok' and way == 'modify':
            done = vp.call(res[1].modify, tag.lower(), text)
            res = res if done[0] == 'ok' else done
        if res[0] != 'ok':
            return {'bad': f'{way}: {res}', 'input': note}
        got = res[1].get(tag.lower())
        if way == 'several':
            if not isinstance(got, list) or len(got) != 3 or not all(same(x, want) for x in got):
                return {'bad': f'{way}: {got!r}, expected three times {want!r}', 'input': note}
        elif not same(got, want):
            return {'bad': f'{way}: {got!r}, expected {want!r}', 'input': note}
    got = vp.call(utils.test_string_content, text)
    if got != ('ok', {'int': 'int', 'float': 'float'}.get(case['class'], 'string')):
        return {'bad': f'test_string_content: {got}', 'input': note}
    try:
        float(text)
        loose = True
    except ValueError:
        loose = False
    numeric = case['class'] in ('int', 'float')
    if loose == numeric:
        got = vp.call(utils.is_number, text)
        if got != ('ok', numeric):
            return {'bad': f'is_number: {got}', 'input': note}
    return {'input': note}


def judge_line(case):
    from parsevasp import utils
    from parsevasp.poscar import Poscar
    rng = random.Random(case['salt'])
    exp = case['line']
    words = []
    for cls in case['words']:
        words.append(spell({'int': ['d'] * rng.choice([1, 1, 2, 4]), 'float': rng.choice([['d', 'p', 'd'], ['s', 'd', 'p'], ['p', 'd', 'e', 's', 'd'], ['d', 'e', 'd']]),
                            'word': rng.choice([['x'], ['x', 'd'], ['x', 'x'], ['d', 'x']]), 'true': ['T']}[cls], rng))
    if rng.random() < 0.4:
        # equal words are words on their own
        first = {}
        words = [first.setdefault(cls, word) for cls, word in zip(case['words'], words)]
    blank = lambda: rng.choice([' ', ' ', '  ', '     ', '\t'])  # noqa: E731
    line = rng.choice(['', ' ', '   ', '\t'])
    line += ''.join((blank() if i else '') + w for i, w in enumerate(words)) + rng.choice(['', '', ' ', '  '])
    note = f'line {line!r}'
    got = vp.call(utils.is_numbers, line + rng.choice(['', '\n']))
    if got != ('ok', exp['numbers']):
        return {'bad': f'is_numbers: {got}, expected {exp["numbers"]}', 'input': note}
    for kind, fits in ((int, exp['ints']), (float, exp['floats']), (str, True)):
        handle = io.StringIO(line + '\nnext line\n')
        source = rng.choice([line, line + '\n', handle])
        got = vp.call(utils.line_to_type, source, kind)
        if fits:
            want = [kind(w) for w in words]
            want = want[0] if exp['single'] else want
            if got[0] != 'ok' or type(got[1]) is not type(want) or got[1] != want:
                return {'bad': f'line_to_type {kind.__name__}: {got}, expected {want!r}', 'input': note}
        elif got[0] == 'ok':
            return {'bad': f'line_to_type {kind.__name__}: {got}', 'input': note}
        if source is handle and fits and handle.readline() != 'next line\n':
            return {'bad': 'more or less than a line was taken', 'input': note}
    got = vp.call(utils.line_to_type, rng.choice([line, line + '\n']), str, True)
    if len(line.strip()) != 1 and got != ('ok', line.strip()):
        return {'bad': f'line_to_type, not split: {got}', 'input': note}
    if words:
        # a structure without a line of species is one of an older version
        head = 'c\n1.0\n4 0 0\n0 4 0\n0 0 4\n'
        atoms = rng.randint(1, 3)
        res = vp.call(Poscar, poscar_string=f'{head}{line}\n' + rng.choice(['Direct\n', f'{atoms}\nDirect\n', 'Selective\nDirect\n']) + '0.1 0.2 0.3 T T T\n' * atoms)
        if (res == ('exit', 301)) != exp['numbers']:
            return {'bad': f'as the line of species: {res[0], res[1] if res[0] != "ok" else ""}', 'input': note}
    return {'input': note}


def judge_file(case):
    from parsevasp import utils
    rng = random.Random(case['salt'])
    names = {'a': 'NELM', 'b': 'energy  without', 'c': 'é:'}
    lines = []
    for found in case['lines']:
        parts = [names[n] for n in found] + rng.choice([[], ['x'], ['0.5 1', 'x']])
        rng.shuffle(parts)
        lines.append(rng.choice(['', ' ']) + '/'.join(parts) + '\n')
    if lines and rng.random() < 0.3:
        lines[-1] = lines[-1].rstrip('\n')
    text = ''.join(lines)
    # an empty last line without an end is none
    lines = text.splitlines(keepends=True)
    want = [lines[i - 1] for i in case['chosen']] if all(i <= len(lines) for i in case['chosen']) else None
    if want is None:
        return {'traces': 0, 'nontrivial': False}
    asked = [names[n] for n in case['asked']]
    rng.shuffle(asked)
    name = f'file{os.getpid()}'
    with open(name, 'w', encoding='utf8') as out:
        out.write(text)
    note = f'{text!r}, asked for {asked}'
    for source in ((name, None), (None, io.StringIO(text))):
        forms = [asked, tuple(asked)] + (asked if len(asked) == 1 else [])
        form = rng.choice(forms)
        got = vp.call(utils.is_sequence, form)
        if got != ('ok', not isinstance(form, str)):
            return {'bad': f'is_sequence: {got}', 'input': f'{form!r}'}
        got = vp.call(utils.read_from_file, *source, contains=form)
        if got[0] != 'ok' or not isinstance(got[1], list) or got[1] != want:
            return {'bad': f'{form!r} from {source}: {got}, expected {want}', 'input': note}
        if source[1]:
            source[1].seek(0)
        got = vp.call(utils.read_from_file, *source)
        if got != ('ok', lines):
            return {'bad': f'all lines: {got}', 'input': note}
        if source[1]:
            source[1].seek(0)
        got = vp.call(utils.read_from_file, *source, lines=False)
        if got != ('ok', text):
            return {'bad': f'the text: {got}', 'input': note}
    os.unlink(name)
    return {'input': note}


def check_P33(check):
    deep = check.thorough
    rng = check.rng('words')

    def explore(name, mode, length, signs, judge, names='{"a", "b"}'):
        if check.replay is not None and check.replay.get('group') != name:
            return
        res = vp.tlc('Words', f'SPECIFICATION SpecMC\nINVARIANTS Meaning Emit\nCONSTANTS\n  Mode = "{mode}"\n  MaxLen = {length}\n'
                     f'  Signs = {{{", ".join(chr(34) + s + chr(34) for s in signs)}}}\n  Names = {names}\n')
        check.add_tlc(res, name, True)
        recs = sorted(res['records'], key=str)
        check.run(name, [dict(rec, salt=f'{check.seed}-{name}-{i}') for i, rec in enumerate(recs)], judge)

    explore('words', 'word', 6 if deep else 5, 'dspexu', judge_word)
    explore('flags', 'word', 4 if deep else 3, 'dspexuTF', judge_word)
    explore('lines', 'line', 6 if deep else 5, '', judge_line)
    explore('files', 'file', 5 if deep else 4, '', judge_file)
    explore('files of more', 'file', 3 if deep else 2, '', judge_file, '{"a", "b", "c"}')
    docs = []
    for _ in range(20000 if deep else 2500):
        shape = rng.choice(['number', 'number', 'near', 'any', 'letters'])
        if shape == 'letters':
            doc = rng.choice([[], [], ['s'], ['p'], ['d']]) + ['x'] * rng.choice([3, 8, 8, 3, 5])
        elif shape == 'any':
            doc = [rng.choice('dspexud') for _ in range(rng.randint(3, 12))]
        else:
            doc = rng.choice([[], ['s']]) + ['d'] * rng.choice([0, 1, 2, 9, 20]) + rng.choice([[], ['p']]) + ['d'] * rng.choice([0, 1, 6, 17])
            doc += rng.choice([[], ['e'] + rng.choice([[], ['s']]) + ['d'] * rng.choice([1, 2])])
            doc = doc or ['d']
            if shape == 'near':
                doc.insert(rng.randint(0, len(doc)), rng.choice('dspexu'))
        docs.append(doc)
    res = vp.tlc_docs('Words', docs, 'SPECIFICATION SpecDocs\nINVARIANTS Meaning Emit\nCONSTANTS\n  Mode = "word"\n  MaxLen = 0\n  Signs = {}\n  Names = {}\n')
    check.add_tlc(res, 'longer words')
    check.run('longer words', [dict(rec, salt=f'{check.seed}-longer words-{i}') for i, rec in enumerate(res['records'])], judge_word)
