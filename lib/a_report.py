"""P30: who is told about what is refused. Specification: Report.tla."""
import io
import logging
import os
import random
import sys

import numpy as np

import vp

import a_sources

CLASSES = ('incar', 'poscar', 'kpoints', 'outcar', 'doscar', 'eigenval', 'chgcar', 'potcar', 'stream', 'xml')
TEXTS = {}
# a word the report of every exit code has, besides the text that is registered for it
WORDS = {10: 'argument', 12: 'missing', 13: 'type', 14: 'path', 15: 'handler', 16: 'path', 100: 'tag', 101: 'equal', 102: '#', 103: 'comment',
         104: 'same type', 105: 'type', 106: 'part of', 200: 'direct', 201: 'tetra', 202: 'automatic', 203: 'expert', 205: 'conver',
         206: 'divisions', 207: 'allowed', 210: 'kpoint()', 211: 'number', 212: 'centering', 213: 'mode', 301: 'vasp 4', 302: 'velocity',
         304: 'number', 305: 'allowed', 307: 'negative', 500: 'multiple', 501: 'species', 502: 'ispin', 503: 'nbands', 505: 'match',
         506: 'element', 507: 'status', 509: 'overflow', 510: 'argument', 600: 'crash'}


def text_of(kind):
    """A text the class of this kind can read."""
    if kind not in TEXTS:
        if kind == 'outcar':
            TEXTS[kind] = outcar_text(True)
        elif kind.startswith('xml'):
            TEXTS[kind] = xml_text()
        else:
            sub = a_sources.Subject.__new__(a_sources.Subject)
            sub.kind, sub.rng, sub.style = {'kpoints': 'kpoints-explicit'}.get(kind, kind), random.Random('good ' + kind), 'shared'
            TEXTS[kind] = getattr(sub, 'text_' + kind)('a')
    return TEXTS[kind]


def outcar_text(begun):
    lines = [' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build) complex', '   NELM   =     60', '   NSW    =      1', '   IBRION =      1']
    if begun:
        lines += ['--------------------------------------- Iteration      1(   1)  ---------------------------------------',
                  ' General timing and accounting informations for this job:']
    return '\n'.join(lines) + '\n'


def class_of(kind):
    from parsevasp.chgcar import Chgcar
    from parsevasp.doscar import Doscar
    from parsevasp.eigenval import Eigenval
    from parsevasp.incar import Incar
    from parsevasp.kpoints import Kpoints
    from parsevasp.outcar import Outcar
    from parsevasp.poscar import Poscar
    from parsevasp.potcar import Potcar
    from parsevasp.stream import Stream
    from parsevasp.vasprun import Xml
    return dict(zip(CLASSES, (Incar, Poscar, Kpoints, Outcar, Doscar, Eigenval, Chgcar, Potcar, Stream, Xml)))[kind.split('-')[0]]


def xml_text(species='Si', atoms=True, ispin=True, nbands='2', eig=2, efermi=1, forces='0.1 0.2 0.3', energy='-1.5'):
    structure = ('<structure{}><crystal><varray name="basis"><v>4 0 0</v><v>0 4 0</v><v>0 0 4</v></varray></crystal>'
                 '<varray name="positions"><v>0 0 0</v></varray></structure>\n')
    text = '<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>\n<generator><i name="version" type="string">5.4.4 </i></generator>\n'
    text += ('<kpoints><varray name="kpointlist"><v>0 0 0</v><v>0.5 0 0</v></varray><varray name="weights"><v>0.5</v><v>0.5</v></varray></kpoints>\n'
             '<parameters><separator name="electronic"><i type="int" name="ISMEAR">0</i><i name="SIGMA">0.1</i>')
    if nbands:
        text += f'<i type="int" name="NBANDS">{nbands}</i>'
    text += '<separator name="electronic spin">' + ('<i type="int" name="ISPIN">1</i>' if ispin else '') + '</separator></separator></parameters>\n'
    if atoms:
        text += ('<atominfo><atoms>1</atoms><types>1</types><array name="atoms"><field type="string">element</field>'
                 f'<set><rc><c>{species}</c><c>1</c></rc></set></array></atominfo>\n')
    text += structure.format(' name="initialpos"')
    text += ('<calculation><scstep><energy><i name="e_fr_energy">-1.0</i><i name="e_wo_entrp">-1.0</i><i name="e_0_energy">-1.0</i></energy></scstep>\n'
             + structure.format(''))
    text += (f'<varray name="forces"><v>{forces}</v></varray><varray name="stress"><v>1 0 0</v><v>0 1 0</v><v>0 0 1</v></varray>'
             f'<energy><i name="e_fr_energy">{energy}</i><i name="e_wo_entrp">-1.0</i><i name="e_0_energy">-1.0</i></energy>\n')
    text += ('<eigenvalues><array><set><set comment="spin 1">'
             + ''.join(f'<set comment="kpoint {k}">' + '<r>-1.0 1.0</r>' * eig + '</set>' for k in (1, 2)) + '</set></set></array></eigenvalues>\n')
    text += ('<dos>' + '<i name="efermi">2.0</i>' * efermi + '<total><array><set><set comment="spin 1"><r>0 1 2</r><r>1 1 2</r></set></set></array></total>'
             '<partial><array><set><set comment="ion 1"><set comment="spin 1"><r>0 1</r><r>1 1</r></set></set></set></array></partial></dos>\n')
    return text + '</calculation>\n' + structure.format(' name="finalpos"') + '</modeling>\n'


def site(**changes):
    return dict({'specie': 'Si', 'position': np.array([0.0, 0.5, 0.25]), 'selective': [True, True, True], 'velocities': None,
                 'predictors': None, 'direct': True}, **changes)


def good_poscar():
    return {'comment': 'x', 'unitcell': np.diag([3.0, 4.0, 5.0]), 'sites': [site(), site(specie='O')]}


def good_kpoints():
    from parsevasp.kpoints import Kpoint
    return {'comment': 'x', 'divisions': [2, 2, 2], 'shifts': None, 'points': [Kpoint(np.array([0.0, 0.0, 0.5]), 1.0, True)], 'tetra': [[1, 1, 1, 1, 1]],
            'tetra_volume': 0.5, 'mode': 'explicit', 'centering': None, 'num_kpoints': 1, 'generating_vectors': None}


def without(table, key):
    return {k: v for k, v in table.items() if k != key}


def ask(kind, how, rng, scratch, paths):
    """The arguments with which the class of `kind` is asked for an object."""
    from parsevasp.kpoints import Kpoint
    if how in ('path', 'handler', 'missing', 'folder', 'none', 'two'):
        path = os.path.join(scratch, f'file{rng.randrange(10**6)}')
        paths.append(path)
        if how == 'missing':
            return {'file_path': path}
        if how == 'folder':
            os.mkdir(path)
            return {'file_path': path}
        if how == 'none':
            return {}
        text = text_of(kind)
        if how == 'handler':
            return {'file_handler': io.StringIO(text)}
        with open(path, 'w', encoding='utf8') as out:
            out.write(text)
        return {'file_path': path} if how == 'path' else {'file_path': path, 'file_handler': io.StringIO(text)}
    if kind == 'incar':
        texts = {'two equals': 'ENCUT = 300\nALGO = Fast = Slow\n', 'no sign': 'ENCUT = 300\njust words\n', 'mixed': 'ENCUT = 300 eV\n',
                 'unknown': 'NOSUCHTAG = 1\n', 'twice': 'ENCUT = 300\nENCUT = 400\n'}
        if how in texts:
            if how == 'two equals' or rng.random() < 0.5:
                return {'incar_string': texts[how]}
            return {'file_handler': io.StringIO(texts[how])}
        return {'incar_dict': {'hashes': {'encut': '300 # a # b'}, 'mixed given': {'encut': '300 eV'}, 'type': {'encut': (1, 2)},
                               'sign': {'algo': rng.choice(['a;b', 'a=b', ['a', 'b#']])}, 'unknown given': {'nosuchtag': 1}}[how]}
    if kind == 'poscar':
        lines = ['x', '1.0', '3 0 0', '0 3 0', '0 0 3', 'Si', '1', 'Direct', '0 0 0']
        if how == 'scaling':
            lines[1] = '-27.0'
        if how == 'four':
            del lines[5]
        if how == 'velocities':
            lines += ['', 'what is this']
        if how in ('scaling', 'four', 'velocities'):
            text = '\n'.join(lines) + '\n'
            return {'poscar_string': text} if rng.random() < 0.5 else {'file_handler': io.StringIO(text)}
        given = good_poscar()
        if how in ('no cell', 'no comment', 'no sites'):
            del given[{'no cell': 'unitcell'}.get(how, how[3:])]
        elif how == 'site untold':
            del given['sites'][1][rng.choice(sorted(given['sites'][1]))]
        elif how == 'site':
            given['sites'].append(rng.choice([None, 3]))
        else:
            given[{'cell': 'unitcell'}.get(how, how)] = 3
        return {'poscar_dict': given}
    if kind == 'kpoints':
        texts = {'cartesian': 'x\n1\nCartesian\n0 0 0 1\n', 'line cartesian': 'x\n5\nLine\nCartesian\n0 0 0\n0 0 1\n',
                 'five': 'x\n1\nReciprocal\n0 0 0 1\nTetrahedra\n1 0.5\n1 1 1 1\n', 'automatic': 'x\n0\nAutomatic\n20\n',
                 'expert': 'x\n0\nCartesian\n1 0 0\n0 1 0\n0 0 1\n0 0 0\n'}
        if how in texts:
            return {'kpoints_string': texts[how]} if rng.random() < 0.5 else {'file_handler': io.StringIO(texts[how])}
        given = good_kpoints()
        if how.startswith('no '):
            del given[how[3:]]
        elif how == 'nothing':
            given['points'] = given['divisions'] = None
        elif how in ('mode', 'centering'):
            given[how] = 'word'
        elif how == 'object':
            given['points'] = [Kpoint(np.zeros(3), 1.0, True), 3]
        elif how == 'four given':
            given['tetra'] = [[1, 1, 1, 1]]
        else:
            given[how[4:]] = {'comment': 3, 'points': 'word', 'shifts': [1], 'tetra_volume': 1, 'divisions': 'word',
                              'generating_vectors': 3, 'tetra': [3], 'num_kpoints': 1.5}[how[4:]]
        return {'kpoints_dict': given}
    if kind == 'outcar':
        return {'file_handler': io.StringIO(outcar_text(how == 'warned'))}
    if kind.startswith('xml'):
        changes = {'element': {'species': 'Qq'}, 'no spins': {'ispin': False}, 'no bands': {'nbands': None}, 'bands': {'eig': rng.choice([1, 3])},
                   'force stars': {'forces': '**** 0 0'}, 'energy stars': {'energy': '********'}, 'number stars': {'nbands': '****'},
                   'no atoms': {'atoms': False}, 'two fermi': {'efermi': 2}}[how]
        return {'file_handler': io.StringIO(xml_text(**changes))}
    raise vp.Machinery(f'{kind}: {how}')


def item(how, rng, logger):
    from parsevasp.incar import IncarItem
    value = {'plain': 300, 'mixed': '1 a', 'type': (1,), 'sign': 'a;b', 'lines': ['a\nb']}[how]
    return IncarItem('encut', value, None, logger=logger)


def use(obj, kind, how, rng, scratch, logger, paths):
    from parsevasp import utils
    from parsevasp.base import open_close_file_handler
    from parsevasp.kpoints import Kpoint
    path = os.path.join(scratch, f'file{rng.randrange(10**6)}')
    paths.append(path)
    if kind == 'files':
        if how == 'read':
            with open(path, 'w', encoding='utf8') as out:
                out.write('a\n')
            return utils.read_from_file(path, None, logger=logger)
        return {'open missing': lambda: open_close_file_handler(path, status='r', logger=logger),
                'read missing': lambda: utils.read_from_file(path, None, lines=rng.random() < 0.5, logger=logger),
                'close nothing': lambda: open_close_file_handler(path, logger=logger),
                'no path': lambda: utils.file_exists('', logger=logger)}[how]()
    if kind == 'item':
        return obj.get_value()
    if how.startswith('write'):
        return obj.write(**{'write to path': {'file_path': path}, 'write to handler': {'file_handler': io.StringIO()}, 'write none': {},
                            'write two': {'file_path': path, 'file_handler': io.StringIO()},
                            'write missing': {'file_path': os.path.join(path, 'below')}}[how])
    if kind == 'incar':
        return obj.modify('encut', {'modify': 400, 'modify mixed': '1 a', 'modify type': None, 'modify sign': 'a#b'}[how])
    if kind == 'poscar':
        number = len(obj.entries['sites'])
        return {'modify': lambda: obj.modify('comment', 'new'), 'modify entry': lambda: obj.modify('cell', 'new'),
                'modify cell': lambda: obj.modify('unitcell', [[1.0, 0, 0]]), 'modify none': lambda: obj.modify('sites', None),
                'modify number': lambda: obj.modify('comment', 'new', 0), 'modify site': lambda: obj.modify('sites', 3, 0),
                'modify far': lambda: obj.modify('sites', obj.entries['sites'][0], number),
                'delete far': lambda: obj.delete_site(number), 'delete word': lambda: obj.delete_site('0')}[how]()
    if kind == 'kpoints':
        number = len(obj.entries['points'])
        cartesian = Kpoint(np.zeros(3), 1.0, False)
        return {'modify': lambda: obj.modify('comment', 'new'), 'modify entry': lambda: obj.modify('point', 'new'),
                'modify shifts': lambda: obj.modify('shifts', [1]), 'modify none': lambda: obj.modify('num_kpoints', None),
                'modify number': lambda: obj.modify('comment', 'new', 0), 'modify mode': lambda: obj.modify('mode', 'word'),
                'modify centering': lambda: obj.modify('centering', 'word'), 'delete far': lambda: obj.delete_point(number),
                'modify far': lambda: obj.modify('points', Kpoint(np.zeros(3), 1.0, True), number),
                'modify cartesian': lambda: obj.modify('points', cartesian, 0), 'points cartesian': lambda: obj.modify('points', [cartesian]),
                'modify object': lambda: obj.modify('points', 3, 0), 'points object': lambda: obj.modify('points', [3])}[how]()
    if kind.startswith('xml'):
        return {'get': lambda: obj.get_energies('all'), 'status': lambda: obj.get_unitcell('final'),
                'energies status': lambda: obj.get_energies('first'), 'forces status': lambda: obj.get_forces('final'),
                'stress status': lambda: obj.get_stress('')}[how]()
    return {'outcar': lambda: obj.get_symmetry(), 'doscar': lambda: obj.get_dos(), 'eigenval': lambda: obj.get_eigenvalues(),
            'chgcar': lambda: obj.charge_density, 'potcar': lambda: obj.symbol, 'stream': lambda: obj.entries}[kind]()


def named(kind, how, code, paths):
    """What the report has to name: the file, the entry of the dictionary, the tag."""
    if code == 14:
        return paths
    if code == 12 and how.startswith('no '):
        return ["'" + {'no cell': 'unitcell'}.get(how, how[3:]) + "'"]
    if code == 13 and how.startswith('bad '):
        return ["'" + how[4:] + "'"]
    if code in (100, 103, 104, 105, 106):
        return ['nosuchtag' if code == 100 else 'encut' if how not in ('sign',) else '']
    return []


class Recorder(logging.Handler):
    """Keeps what a logger is told."""

    def __init__(self):
        super().__init__()
        self.told = []

    def emit(self, record):
        self.told.append((record.levelno, record.name, record.getMessage()))


def judge(case):
    kept = (sys.stdout, sys.stderr, logging.root.manager.disable, logging.root.level, list(logging.root.handlers))
    try:
        return run(case)
    finally:
        sys.stdout, sys.stderr = kept[:2]
        logging.disable(kept[2])
        logging.root.setLevel(kept[3])
        logging.root.handlers[:] = kept[4]


def run(case):
    from parsevasp.base import BaseParser
    rng = random.Random(case['salt'])
    scratch = os.getcwd()
    for step in case['doc']:
        if step['c'] in CLASSES + ('xml-event',):
            text_of(step['c'])
    logging.disable(logging.NOTSET)
    for name, logger in list(logging.root.manager.loggerDict.items()):
        if isinstance(logger, logging.Logger) and (name.startswith('parsevasp') or name == 'IncarItem'):
            logger.handlers[:] = []
            logger.setLevel(logging.NOTSET)
    rest = Recorder()
    logging.root.handlers[:] = [rest]
    users, state = {}, {}
    for name in 'ab':
        logger = logging.getLogger(f'user.{name}')
        recorder = Recorder()
        logger.handlers[:] = [recorder]
        logger.propagate = False
        logger.setLevel(rng.choice([logging.DEBUG, logging.INFO, logging.WARNING]))
        users[name] = (logger, recorder)
    shape = lambda log: (log.level, list(log.handlers), log.propagate, log.disabled, list(log.filters))  # noqa: E731
    state = {name: shape(users[name][0]) for name in users}
    root = shape(logging.root)
    printed, wrong = io.StringIO(), io.StringIO()
    sys.stderr, sys.stdout = printed, wrong
    objs, note, lengths, paths = {}, [], {}, []

    def bad(text):
        return {'bad': text, 'input': '\n'.join(note)[:2500]}

    for step in case['doc']:
        kind, how, code, log = step['c'], step['how'], step['code'], step['log']
        logger = users[log][0] if log in users else None
        note.append(f'{step["do"]} {kind} {how} (object {step["i"]}, logger {log}): expected {"fine" if code == 0 else code}')
        for recorder in [rest] + [r for _, r in users.values()]:
            recorder.told.clear()
        printed.seek(0)
        printed.truncate()
        try:
            if step['do'] == 'use':
                use(objs[step['i']][0], kind, how, rng, scratch, objs[step['i']][1], paths)
            elif kind == 'files':
                objs[step['i']] = (None, logger)
            elif kind == 'item':
                objs[step['i']] = (item(how, rng, logger), logger)
            else:
                options = {'event': kind == 'xml-event'} if kind.startswith('xml') else {}
                if logger is not None or rng.random() < 0.2:
                    options['logger'] = logger
                objs[step['i']] = (class_of(kind)(**ask(kind, how, rng, scratch, paths), **options), logger)
            res = 0
        except SystemExit as exc:
            res = exc.code
        except Exception as exc:  # pylint: disable=broad-except
            res = f'{type(exc).__name__}: {exc}'
        if res != code:
            return bad(f'expected {"success" if code == 0 else f"exit {code}"}, got {"success" if res == 0 else res}')
        told = {name: list(users[name][1].told) for name in users}
        told['own'] = list(rest.told)
        where = log if log in users else 'own'
        for name, records in told.items():
            if name != where and records:
                return bad(f'{records[0]} was reported to {name}, the logger is {log}')
        for name in users:
            if shape(users[name][0]) != state[name]:
                return bad(f'the logger {name} of the user was changed: {state[name]} -> {shape(users[name][0])}')
        if shape(logging.root) != root:
            return bad('the root logger was changed')
        mine = told[where]
        failures = [r for r in mine if r[0] >= logging.ERROR]
        if code == 0 and failures:
            return bad(f'nothing was refused, but {failures[0]} was reported')
        if code != 0:
            serious = [r for r in mine if r[0] >= logging.WARNING]
            if not serious:
                return bad(f'the refusal was not reported to the logger {log}')
            text = BaseParser.ERROR_MESSAGES.get(code)
            if text is not None and text not in serious[-1][2]:
                return bad(f'exit {code} was reported as {serious[-1][2]!r}, its text is {text!r}')
            for word in [WORDS[code]] + named(kind, how, code, [] if how in ('none', 'two') else paths[-1:]):
                if word.lower() not in serious[-1][2].lower():
                    return bad(f'exit {code} was reported as {serious[-1][2]!r}, without mention of {word!r}')
            lengths[log] = lengths.get(log, 0) + 1
        shown = printed.getvalue()
        if wrong.getvalue():
            return bad(f'printed on standard output: {wrong.getvalue()!r}')
        if where != 'own':
            if shown:
                return bad(f'printed on standard error: {shown!r}')
        else:
            cls = class_of(kind)
            for record in mine:
                if record[1] != f'{cls.__module__}.{cls.__name__}':
                    return bad(f'{record} stems from another logger than that of {cls.__name__}')
                count = len([r for r in mine if r[2] == record[2]])
                if shown.count(record[2]) != count:
                    return bad(f'{record[2]!r} was reported {count} time(s), but shown {shown.count(record[2])} time(s)')
    if {k: v for k, v in case['lengths'].items() if v} != lengths:
        return bad(f'expected reports {case["lengths"]}, got {lengths}')
    return {'input': '\n'.join(note)}


def cfg(spec, length, kinds):
    return (f'SPECIFICATION {spec}\nINVARIANTS Told Apart Codes Emit\nCONSTANTS\n  MaxLen = {length}\n'
            '  MCKinds = {' + ', '.join(f'"{k}"' for k in kinds) + '}\n')


ALL = CLASSES + ('xml-event', 'item', 'files')


def check_P30(check):
    deep = check.thorough
    rng = check.rng('report')
    res = vp.tlc('Report', cfg('SpecMC', 1, ALL))
    check.add_tlc(res, 'sources', True)
    first = sorted(res['records'], key=lambda r: str(r['doc']))
    check.run('sources', [dict(doc=r['doc'], lengths=r['lengths'], salt=f'{check.seed}-s{i}-{j}') for i, r in enumerate(first)
                          for j in range(20 if deep else 3)], judge)
    asks, uses = {}, {}
    for rec in first:
        asks.setdefault(rec['doc'][0]['c'], set()).add((rec['doc'][0]['how'], rec['doc'][0]['code']))
    recs = []
    for kind in ALL:
        res = vp.tlc('Report', cfg('SpecMC', 2, [kind]))
        check.add_tlc(res, f'pairs-{kind}', True)
        recs += [r for r in res['records'] if len(r['doc']) == 2]
    for rec in recs:
        last = rec['doc'][1]
        if last['do'] == 'use':
            uses.setdefault(last['c'], set()).add(last['how'])
    recs.sort(key=lambda r: str(r['doc']))
    used = [r for r in recs if r['doc'][1]['do'] == 'use']
    made = [r for r in recs if r['doc'][1]['do'] == 'make']
    pairs = used + (made if deep else rng.sample(made, min(len(made), 2500)))
    check.run('pairs', [dict(doc=r['doc'], lengths=r['lengths'], salt=f'{check.seed}-p{i}-{j}') for i, r in enumerate(pairs)
                        for j in range(3 if deep else 1)], judge)
    docs = []
    for _ in range(6000 if deep else 1000):
        kinds = rng.sample(ALL, rng.choice([1, 1, 2, 3]))
        doc, live = [], []
        count = 0
        for _ in range(rng.choice([3, 6, 12])):
            if live and rng.random() < 0.6:
                i, kind = rng.choice(live)
                doc.append({'do': 'use', 'c': kind, 'l': '-', 'how': rng.choice(sorted(uses[kind])), 'i': i})
            else:
                kind = rng.choice(kinds)
                count += 1
                good = [a for a in asks[kind] if a[1] == 0]
                how, code = rng.choice(sorted(good if rng.random() < 0.5 else asks[kind]))
                doc.append({'do': 'make', 'c': kind, 'l': rng.choice(['a', 'b'] if kind in ('item', 'files') else ['own', 'a', 'b']), 'how': how, 'i': count})
                # a KPOINTS of divisions has no points to be numbered; every good source used here has some
                if code == 0:
                    live.append((count, kind))
        docs.append(doc)
    res = vp.tlc_docs('Report', docs, cfg('SpecDocs', 0, []))
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(doc=r['doc'], lengths=r['lengths'], salt=f'{check.seed}-h{i}') for i, r in enumerate(res['records'])], judge)
