"""POTCAR (P25): files of specs/Potcar.tla."""
import io
import random

import vp

TEXT = ['VRHFIN', 'LEXCH', 'TITEL']
BOOL = ['LULTRA', 'LCOR', 'LPAW']
INT = ['IUNSCR', 'NDATA', 'ICORE']
REAL = ['EATOM', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'RCLOC', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT']
LABELS = ['pe', '91', 'rp', 'am', 'ps', 'pw', 'lm', 'pb', 'ca', 'hl', 'wi', '--', 'b3']
ELEMENTS = vp.PERIODIC
NOTES = {'EATOM': ' eV,  111.1111 Ry', 'RPACOR': '    partial core radius', 'ZVAL': '    mass and valenz', 'ENMIN': ' eV', 'EAUG': '',
         'ICORE': '    local potential', 'IUNSCR': '    unscreen: 1-lin 1-nonlin 1-no', 'LULTRA': '    use ultrasoft PP ?',
         'LCOR': '    correct aug charges', 'LPAW': '    paw PP', 'RWIGS': '    wigner-seitz radius (au A)'}


def value(field, rng, last):
    """(text, value, symbol parts or None) of one field."""
    key = field['key']
    if key == 'TITEL':
        parts = [rng.choice(ELEMENTS)] + rng.sample(['d', 'sv', 'pv', 'GW', 'new', '2', 'h'], field['parts'] - 1)
        symbol = '_'.join(parts)
        words = {1: [symbol], 2: [rng.choice(['PAW', 'US', 'PAW_PBE']), symbol],
                 3: [rng.choice(['PAW_PBE', 'PAW', 'PAW_GGA', 'US']), symbol, rng.choice(['06Sep2000', '11Feb1111', '25Jul2003'])]}[field['words']]
        text = rng.choice([' ', ' ', ' ', '  ']).join(words)
        return text, text, words
    if key == 'LEXCH':
        text = rng.choice([field['label'].upper(), field['label'].upper(), field['label'], field['label'].capitalize()])
        return text, text, None
    if key == 'VRHFIN':
        text = rng.choice(['In: s1p1', 'Si: s2p2', 'H: ultrasoft test', 'Fe: 3d7 4s1', 'O', 'Yb: 5p6s - test 1.0'])
        return text, text, None
    if key in BOOL:
        val = rng.random() < 0.5
        return rng.choice(['T', '.TRUE.', 't', 'true', '.T.'] if val else ['F', '.FALSE.', 'f', 'false', '.F.']), val, None
    if key in INT:
        val = rng.choice([0, 1, 2, 100, -1, 999, 12])
        return str(val), val, None
    if key == 'STEP':
        vals = ['%.3f' % rng.uniform(0, 30) for _ in range(rng.choice([1, 2, 2, 3]))]
        return '   '.join(vals), [float(v) for v in vals], None
    if key in REAL:
        text = rng.choice(['%.3f', '%.4f', '%.1f']) % rng.choice([rng.uniform(-2, 2), rng.uniform(0, 2000), 0.0, rng.randint(0, 9)])
        kind = rng.random()
        if kind < 0.15 and text.startswith(('0.', '-0.')):
            text = text.replace('0.', '.', 1)
        elif kind < 0.25:
            text = rng.choice(['%.4E', '%.2e']) % rng.choice([rng.uniform(0, 1e-3), rng.uniform(1, 5e4), -rng.uniform(1, 5e4)])
        elif kind < 0.3:
            text = str(rng.randint(-9, 400))
        return text, float(text), None
    return rng.choice(['F', '12', '1.5', 'abcdef (c) text']), None, None


def render(doc, rng):
    """(text, identifier -> value, identifier -> words of the title)."""
    lines, values, titles = [], {}, {}
    for number, ev in enumerate(doc, 1):
        kind = ev['k']
        if kind == 'title':
            lines.append('  PAW_PBE ' + rng.choice(['Xx', 'Xx_sv', 'In_d']) + ' 01Jan1901')
        elif kind == 'text':
            lines += rng.choice([['   11.1111111111111'], ['', '   Atomic configuration', '   11 entries', '     n  l   j            E        occ.', '     1  0  0.50      -2.5  2.0000'],
                                 ['   Description', '     l       E           TYP  RCUT    TYP  RCUT', '     2    -14.5          23   1.9'],
                                 ['   Error from kinetic energy argument (eV)'], ['  31.5      30.3      29.1', ' 1.05      1.02']])
        elif kind == 'fake':
            lines.append(rng.choice(['   TITEL  = PAW_PBE Xx 01Jan1901', '   ENMAX  =  999.999; ENMIN  =  888.888 eV', '   LEXCH  = WI', '   VRHFIN =Xx: s9', '   STEP   =   77.7   7.7',
                                     '   POMASS =  777.777; ZVAL   =   77.777    mass and valenz', '   LPAW   =        F    paw PP']))
        elif kind == 'begin':
            lines.append(' parameters from PSCTR are:')
        elif kind == 'end':
            lines.append('END of PSCTR-controll parameters')
        else:
            texts = []
            for j, field in enumerate(ev['f'], 1):
                text, val, words = value(field, rng, j == len(ev['f']))
                values[10 * number + j] = val
                if words:
                    titles[10 * number + j] = words
                gap = ' =' if field['key'] == 'VRHFIN' and rng.random() < 0.5 else rng.choice(['  = ', ' =  ', '=', '   =       '])
                note = ''
                if j == len(ev['f']) and field['key'] not in TEXT + ['STEP'] and rng.random() < 0.6:
                    note = NOTES.get(field['key'], '    core radius for proj-oper')
                if gap == '=' and field['key'] in TEXT + ['STEP'] and not text:
                    gap = ' = '
                texts.append(field['key'] + gap + text + note)
            lines.append('   ' + rng.choice(['; ', '; ', ';  ', ' ; ']).join(texts) + rng.choice(['', '', '  ']))
    return '\n'.join(lines) + rng.choice(['\n', '']), values, titles


def typed(want, got, what):
    """Exact comparison including the type."""
    if type(want) is not type(got):
        return f'{what}: expected {want!r}, got {got!r}'
    return vp.deep(want, got, what, tol=1e-13)


def judge(case):
    from parsevasp.potcar import Potcar
    rng = random.Random(case['salt'])
    exp = case['exp']
    text, values, titles = render(case['doc'], rng)
    with open('POTCAR', 'w', encoding='utf8') as handle:
        handle.write(text)
    for name, kwargs in (('path', {'file_path': 'POTCAR'}), ('handle', {'file_handler': io.StringIO(text)})):
        note = f'({name}) {text}'
        res = vp.call(Potcar, **kwargs)
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': 'accepted a file that should be refused', 'input': note}
            continue
        if res[0] != 'ok':
            return {'bad': f'refused a valid file: {res}', 'input': note}
        real = res[1]
        want = {key: values[ident] for key, ident in exp['meta']}
        diff = None
        if set(want) != set(real.metadata):
            diff = f'fields {sorted(real.metadata)}, expected {sorted(want)}'
        for key in want:
            diff = diff or typed(want[key], real.metadata[key], key)
            for spelling in (key, key.lower(), key.capitalize()):
                diff = diff or typed(want[key], getattr(real, spelling), 'attribute ' + spelling)
        symbol = titles[dict(exp['meta'])['TITEL']][exp['symbolWord'] - 1]
        got = vp.call(lambda: [real.symbol, real.element])
        diff = diff or vp.deep(['ok', [symbol, symbol.split('_')[0]]], list(got), 'symbol, element')
        if exp['hasLabel']:
            got = vp.call(lambda: [real.functional, real.functional_class])
            diff = diff or vp.deep(['ok', [None if n == 'none' else n for n in exp['functional']]], list(got), 'functional, class')
        for absent in ('RCLOC', 'rdep', 'Ndata', 'xyz'):
            if absent.upper() not in want:
                diff = diff or (f'attribute {absent} = {getattr(real, absent)!r} of a file without' if hasattr(real, absent) else None)
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': text[:600], 'nontrivial': not exp['refused']}


def random_file(rng):
    def field(key):
        if key == 'TITEL':
            return {'key': key, 'words': rng.choice([1, 2, 3, 3, 3]), 'parts': rng.choice([1, 1, 2, 3])}
        return {'key': key, 'label': rng.choice(LABELS)} if key == 'LEXCH' else {'key': key}
    keys = TEXT + BOOL + INT + REAL + ['STEP']
    if rng.random() < 0.5:
        rng.shuffle(keys)
    keys = [k for k in keys if rng.random() < 0.8 or k == 'TITEL' and rng.random() < 0.8]
    keys += [rng.choice(REAL + INT + BOOL) for _ in range(rng.choice([0, 0, 1, 3]))]
    doc = [{'k': rng.choice(['text', 'fake'])} for _ in range(rng.choice([0, 1, 2]))] + [{'k': 'begin'}]
    doc = ([{'k': 'title'}] if rng.random() < 0.9 else []) + doc
    while keys:
        first = keys.pop(0)
        group = [field(first)]
        while keys and first not in TEXT + ['STEP'] and keys[0] not in TEXT and len(group) < 4 and rng.random() < 0.25:
            first = keys.pop(0)
            group.append(field(first))
        doc.append({'k': 'fields', 'f': group})
        if rng.random() < 0.2:
            doc.append({'k': 'text'})
        if rng.random() < 0.1:
            doc.append({'k': 'fields', 'f': [{'key': rng.choice(['COPYR', 'SHA256', 'QCUT', 'LMMAX', 'VRHFINX'])}]})
    if rng.random() < 0.95:
        doc.append({'k': 'end'})
    return doc + [{'k': rng.choice(['text', 'fake'])} for _ in range(rng.choice([0, 1, 3]))]


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def tla(names):
    return '{' + ', '.join(f'"{n}"' for n in names) + '}'


def check_P25(check):
    deep = check.thorough
    groups = [('labels', dict(MaxLines=2, Keys=tla(['TITEL', 'LEXCH', 'RCLOC']), Labels=tla(LABELS), TitleFirst='FALSE')),
              ('fields', dict(MaxLines=2, Keys=tla(TEXT + BOOL + INT + REAL + ['STEP', 'COPYR']), Labels=tla(['pe']), TitleFirst='TRUE'))]
    if deep:
        groups.append(('orders', dict(MaxLines=3, Keys=tla(['TITEL', 'LEXCH', 'RWIGS', 'ENMAX']), Labels=tla(['pe', '91']), TitleFirst='FALSE')))
    for name, const in groups:
        if not wants(check, name):
            continue
        res = vp.tlc('Potcar', cfg('SpecMC', **const))
        check.add_tlc(res, name, True)
        recs = sorted(res['records'], key=lambda r: (len(r['doc']), str(r['doc'])))
        check.run(name, [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)], judge, 32)
    rng = check.rng('large')
    docs = [random_file(rng) for _ in range(3000 if deep else 600)]
    res = vp.tlc_docs('Potcar', docs, cfg('SpecDocs', MaxLines=0, Keys='{}', Labels='{}', TitleFirst='FALSE'))
    check.add_tlc(res, 'large')
    check.run('large', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-l{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge)
