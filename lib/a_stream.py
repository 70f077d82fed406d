"""Standard stream (P08, P09): scans and configurations of specs/Stream.tla."""
import io
import os
import random
import re

import vp
import yaml

# What VASP prints for the shipped messages, and their kind, location, recover flag and inverse flag.
SHIPPED = {
    'nostart': (' running vasp.6.3.0 on  4 total cores', 'ERROR', 'STDOUT', False, True),
    'ibzkpt': (' internal error in subroutine IBZKPT:', 'ERROR', 'STDOUT', True, False),
    'brmix': (' BRMIX: very serious problems', 'ERROR', 'STDOUT', False, False),
    'cnormn': (' WARNING: CNORMN: search vector ill defined', 'ERROR', 'STDOUT', False, False),
    'denmp': (" WARNING: DENMP: can't reach specified precision", 'ERROR', 'STDOUT', False, False),
    'dentet': (' WARNING: DENTET: cannot reach specified precision', 'ERROR', 'STDOUT', False, False),
    'edddav_zhegv': (' Error EDDDAV: Call to ZHEGV failed. Returncode =   7', 'ERROR', 'STDOUT', False, False),
    'eddrmm_zhegv': (' WARNING in EDDRMM: call to ZHEGV failed, returncode =   6', 'ERROR', 'STDOUT', False, False),
    'edwav': (' EDWAV: internal error, the gradient is not orthogonal', 'ERROR', 'STDOUT', False, False),
    'fexcp': (' ERROR FEXCP: supplied Exchange-correlation table', 'ERROR', 'STDOUT', False, False),
    'fock_acc': (' internal error in FOCK_ACC: number of k-points incorrect', 'ERROR', 'STDERR', False, False),
    'invgrp': (' internal error in subroutine INVGRP:', 'ERROR', 'STDOUT', False, False),
    'kpoints_trans': (' internal error in GENERATE_KPOINTS_TRANS: number of G-vector changed', 'ERROR', 'STDERR', False, False),
    'non_collinear': (' ERROR: non collinear calculations require that VASP is compiled', 'ERROR', 'STDOUT', False, False),
    'not_hermitian': (' WARNING: Sub-Space-Matrix is not Hermitian in DAV            3', 'ERROR', 'STDOUT', False, False),
    'psmaxn': (' REAL_OPT: PSMAXN for non-local potential too small', 'ERROR', 'STDOUT', False, False),
    'pssyevx': (' ERROR in subspace rotation PSSYEVX: Error in subspace rotation PSSYEVX', 'ERROR', 'STDOUT', False, False),
    'pzstein': (' {    0,    0}:  On entry to PZSTEIN parameter number had an illegal value', 'ERROR', 'STDOUT', False, False),
    'real_optlay': (' REAL_OPTLAY: internal error (1)', 'ERROR', 'STDOUT', False, False),
    'rhosyg': (' RHOSYG: internal error: stars are not distinct', 'ERROR', 'STDOUT', False, False),
    'rspher': (' Internal ERROR RSPHER: running out of buffer', 'ERROR', 'STDOUT', False, False),
    'set_indpw_full': (' internal error in SET_INDPW_FULL: insufficient memory', 'ERROR', 'STDOUT', False, False),
    'sgrcon': (' internal error in subroutine SGRCON:', 'ERROR', 'STDOUT', False, False),
    'zbrent': (' ZBRENT: fatal error in bracketing', 'ERROR', 'STDOUT', False, False),
    'no_potim': (' Fatal error! IBRION=0, but no entry for POTIM on file INCAR. MUST be specified!!', 'ERROR', 'STDOUT', False, False),
    'magmom': (" Error reading item 'MAGMOM' from file INCAR.", 'ERROR', 'STDOUT', False, False),
    'bandocc': (' |     TOO FEW BANDS!!   |', 'ERROR', 'STDOUT', False, False),
}
NOISE = ['', ' ', ' DAV:   1     0.483949E+03    0.48395E+03   -0.27256E+04  2338   0.166E+03', ' LDA part: xc-table for Pade appr. of Perdew',
         ' entering main loop', '   1 F= -.43282E+02 E0= -.43282E+02  d E =-.4E+02', ' reached required accuracy', ' error', 'ERROR', ' warning: nothing',
         ' VERY BAD NEWS!', ' internal error in subroutine', ' POSCAR found :  1 types and       8 ions', ' Vasp', 'brmix']


_YML = []


def shipped_yml():
    """The shipped configuration: texts shown to the user are taken from it."""
    if not _YML:
        with open(os.path.join(vp.REPO, 'parsevasp', 'stream.yml')) as handle:
            _YML.append(yaml.safe_load(handle))
    return _YML[0]


class Concrete:
    """Concrete messages for the identifiers of one case."""

    def __init__(self, rng):
        self.rng = rng
        self.names = {}
        self.user = {}
        self.yml = shipped_yml()

    def name(self, ident):
        """p1, p2: some built-in entry; n*: a new name; otherwise itself."""
        if ident not in self.names:
            if re.match(r'^p\d$', ident):
                self.names[ident] = self.rng.choice([n for n in SHIPPED if n != 'nostart' and n not in self.names.values()])
            elif re.match(r'^n\d', ident):
                self.names[ident] = ident + self.rng.choice(['', '_custom', 'err'])
            else:
                self.names[ident] = ident
        return self.names[ident]

    def config(self, stream, entry):
        """A user entry."""
        rng = self.rng
        key = (stream, entry['name'])
        tag = 'UMSG%d%s' % (stream, entry['name'].upper())
        if key not in self.user:
            pattern, sample = rng.choice([(tag, tag), (tag + r'\d+', tag + '42'), (tag + '.*end', tag + ' is the end'), (r'\b' + tag + r'\b', tag), ('(?i)' + tag, tag.lower()),
                                          (tag + r' \(fatal\)', tag + ' (fatal)'), ('  ' + tag, '  ' + tag), (tag + '  ', tag + '  '), (r'\t' + tag + r'\s', '\t' + tag + '\t'), ('(%s|XX%s)' % (tag, tag), 'XX' + tag)])
            if rng.random() < 0.2:
                pattern = re.compile(pattern)
            conf = {'kind': entry['kind'], 'regex': pattern, 'message': rng.choice(['some message', 'Error: x', ''])}
            opt = {'suggestion': rng.choice(['do it again', '', None]), 'location': rng.choice(['STDOUT', 'STDERR']), 'recover': rng.random() < 0.5,
                   'inverse': entry['inv']}
            for k in opt:
                if entry['inv'] and k == 'inverse' or rng.random() < 0.7:
                    conf[k] = opt[k]
            if entry['valid'] == 'unknown':
                conf['kind'] = rng.choice(['INFO', 'FATAL', '', 'ERRORS', 'ERR'])
            if entry['valid'] == 'bad':
                how = rng.choice([('kind', 5), ('kind', None), ('location', 'NOWHERE'), ('location', 'stdout'), ('recover', 'yes'), ('recover', 1), ('message', 7), ('message', None),
                                  ('suggestion', 3), ('inverse', 'no'), ('inverse', 2), ('recovery', True), ('message', 'missing'), ('regex', 'missing'), ('kind', 'missing')])
                if how[1] == 'missing':
                    del conf[how[0]]
                else:
                    conf[how[0]] = how[1]
            self.user[key] = (conf, sample)
        return self.user[key]

    def text(self, stream, msg):
        """A fragment of a line that contains the message."""
        name = self.name(msg['name'])
        if msg['ver'] == 'u':
            return self.config(stream, {'name': msg['name'], 'kind': 'ERROR', 'inv': False, 'valid': 'ok'})[1]
        return SHIPPED[name][0] if name in SHIPPED else 'no such built-in ' + name

    def line(self, stream, msgs):
        """A line with these messages."""
        if not msgs:
            return self.rng.choice(NOISE)
        return self.rng.choice(['', ' ', '| ', '  ']) + self.rng.choice(['  ', ' ; ', ' | ']).join(self.text(stream, m) for m in msgs) + self.rng.choice(['', ' ', ' |', '.'])


def fields(entry):
    """The observable fields of a reported message."""
    return {'shortname': entry.shortname, 'kind': entry.kind, 'message': entry.message, 'suggestion': entry.suggestion, 'location': entry.location,
            'recover': entry.recover, 'recoverable': entry.recoverable, 'inverse': entry.inverse, 'regex': entry.regex.pattern}


def judge(case):
    from parsevasp.stream import Stream
    rng = random.Random(case['salt'])
    con = Concrete(rng)
    made = []
    streams = []
    for ev in case['doc']:
        if ev['k'] == 'new':
            streams.append((ev, []))
        else:
            streams[-1][1].append(ev['v'])
    notes = []
    for num, (ev, lines) in enumerate(streams):
        exp = case['exp'][num]
        config = {con.name(e['name']): con.config(num, e)[0] for e in ev['conf']}
        shipped = {n: con.yml.get(n) for n in SHIPPED}
        text = [con.line(num, ms) for ms in lines]
        content = ''.join(ln + '\n' for ln in text)
        if rng.random() < 0.2 and content.endswith('\n'):
            content = content[:-1] or content
        kwargs = {'history': ev['hist']} if ev['hist'] or rng.random() < 0.5 else {}
        if config or rng.random() < 0.3:
            kwargs['config'] = config
        with open('stdout', 'w', encoding='utf8') as handle:
            handle.write(content)
        source = rng.choice(['path', 'handle'])
        kwargs.update({'file_path': 'stdout'} if source == 'path' else {'file_handler': io.StringIO(content)})
        before = repr(config)
        notes.append(f'Stream(config={config}, history={ev["hist"]}) on {content!r}')
        res = vp.call(Stream, **kwargs)
        note = '\n'.join(notes)
        if exp['refused']:
            if res[0] == 'ok':
                return {'bad': f'stream {num} with an invalid configuration was accepted', 'input': note}
            continue
        if res[0] != 'ok':
            if exp['mayRefuse'] and res[0] in ('exc', 'exit'):
                continue
            return {'bad': f'stream {num}: {res}', 'input': note}
        if repr(config) != before:
            return {'bad': 'the configuration given by the caller was changed', 'input': note}

        def want_fields(ident, config=config, shipped=shipped):
            name = con.name(ident)
            if name in config:
                conf = config[name]
                return {'shortname': name, 'kind': conf['kind'], 'message': conf['message'], 'suggestion': conf.get('suggestion'),
                        'location': conf.get('location', 'STDOUT'), 'recover': conf.get('recover', False), 'recoverable': conf.get('recover', False),
                        'inverse': conf.get('inverse', False), 'regex': conf['regex'] if isinstance(conf['regex'], str) else conf['regex'].pattern}
            _, kind, location, recover, inverse = SHIPPED[name]
            return {'shortname': name, 'kind': kind, 'message': shipped[name]['message'], 'suggestion': shipped[name]['suggestion'], 'location': location,
                    'recover': recover, 'recoverable': recover, 'inverse': inverse, 'regex': shipped[name]['regex']}
        # built-in messages the specification does not tell apart
        rest = [] if 'builtin' in ev else [n for n in SHIPPED if n not in {con.name(b) for b in ('p1', 'p2', 'nostart')}]
        made.append((num, res[1], exp, want_fields, rest))
        diff = compare(res[1], exp, want_fields, con, rest)
        if diff:
            return {'bad': f'stream {num}: {diff}', 'input': note}
    for num, stream, exp, want_fields, rest in made[:-1]:      # later streams must not change earlier ones
        diff = compare(stream, exp, want_fields, con, rest)
        if diff:
            return {'bad': f'stream {num}, after others were made: {diff}', 'input': '\n'.join(notes)}
    return {'input': '\n'.join(notes), 'nontrivial': any(any(e['out']) for e in case['exp']) or not case['exp'][0]['refused']}


def compare(stream, exp, want_fields, con, rest):
    """The reported entries against the specification."""
    want = []                     # groups whose order inside is free
    for names in exp['out']:
        if names:
            want.append(sorted(names))
    if exp['missing']:
        want.append(sorted(exp['missing']))
    entries = list(stream.entries)
    total = sum(len(g) for g in want)
    got = [e.shortname for e in entries]
    flat = [sorted(con.name(i) for i in g) for g in want]
    if len(entries) != total:
        return f'reported {got}, expected {flat}'
    at = 0
    for group, names in zip(want, flat):
        part = entries[at:at + len(group)]
        at += len(group)
        if sorted(e.shortname for e in part) != names:
            return f'reported {got}, expected {flat}'
        wanted = {con.name(i): want_fields(i) for i in group}
        for entry in part:
            diff = vp.deep(wanted[entry.shortname], fields(entry), entry.shortname)
            if diff:
                return diff
            line = f'({entry.kind}) {entry.shortname}: {entry.message}'
            if str(entry) != line:
                return f'str {str(entry)!r} is not {line!r}'
    if stream.number_of_entries != total or bool(stream.has_entries) != (total > 0):
        return f'number_of_entries {stream.number_of_entries}, has_entries {stream.has_entries}, expected {total}'
    if str(total) not in str(stream) or str(total) not in repr(stream):
        return f'str {str(stream)!r} or repr {stream!r} does not give the number {total}'
    # what is looked for, by kind (the inverse ones may be kept apart)
    names = {con.name(w): want_fields(w) for w in [w['name'] for w in exp['watched']] + rest}
    looked = {(kind, t.shortname): t for kind, triggers in stream.configured_streams.items() for t in triggers}
    wanted = {(f['kind'].lower() + 's', n): f for n, f in names.items()}
    if set(looked) - set(wanted) or {k for k, f in wanted.items() if not f['inverse']} - set(looked):
        return f'looks for {sorted(looked)}, expected {sorted(wanted)}'
    for key, trigger in looked.items():
        diff = vp.deep(wanted[key], fields(trigger), f'configured {key[1]}')
        if diff:
            return diff
    if {k.upper() for k in stream.kinds} != {f['kind'].upper() for f in names.values()}:
        return f'kinds {stream.kinds}'
    return None


def random_streams(rng, many):
    """Streams over all built-in messages."""
    doc = []
    for _ in range(rng.randint(2, 4) if many else 1):
        names = list(SHIPPED)
        conf = []
        for n in rng.sample(names, rng.choice([0, 0, 1, 2, 5])) + [f'n{i}' for i in range(rng.choice([0, 0, 1, 3]))]:
            valid = 'ok'
            if many and rng.random() < 0.06:
                valid = rng.choice(['unknown', 'bad'])
            conf.append({'name': n, 'kind': rng.choice(['ERROR', 'WARNING', 'error', 'Warning']), 'inv': rng.random() < 0.25, 'valid': valid})
        rng.shuffle(conf)
        doc.append({'k': 'new', 'conf': conf, 'hist': rng.random() < 0.5, 'builtin': names})
        given = [c['name'] for c in conf if c['valid'] == 'ok']
        pool = [{'name': n, 'ver': 'b'} for n in names] + [{'name': n, 'ver': 'u'} for n in given] * 4
        if rng.random() < 0.5:
            pool = rng.sample(pool, 4)
        if rng.random() < 0.7:
            doc.append({'k': 'line', 'v': [{'name': 'nostart', 'ver': 'b'}]})
        for _ in range(rng.choice([0, 1, 1, 5, 5, 12, 12, 40, 40, 300])):
            doc.append({'k': 'line', 'v': rng.sample(pool, rng.choice([0, 0, 0, 1, 1, 2, 3]))})
    return doc


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def cases_of(check, records):
    recs = sorted(records, key=lambda r: (len(r['doc']), str(r['doc'])))
    return [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)]


COMMON = dict(Builtins='{"nostart", "p1", "p2"}', Inverse='{"nostart"}')


def explore(check, groups, many, count):
    for name, const in groups:
        if wants(check, name):
            res = vp.tlc('Stream', cfg('SpecMC', **const, **COMMON))
            check.add_tlc(res, name, True)
            check.run(name, cases_of(check, res['records']), judge, 64)
    rng = check.rng('random')
    docs = [random_streams(rng, many) for _ in range(count)]
    res = vp.tlc_docs('Stream', docs, cfg('SpecDocs', MaxLines=0, MaxPer=0, Confs='{}', Probe='{}', **COMMON))
    check.add_tlc(res, 'random')
    check.run('random', [dict(doc=d, exp=r['exp'], salt=f'{check.seed}-r{i}') for i, (d, r) in enumerate(zip(docs, res['records']))], judge)


def check_P08(check):
    deep = check.thorough
    explore(check, [
        ('shipped', dict(MaxLines=4 if deep else 3, MaxPer=2, Confs='{"none"}', Probe='{"p1", "nostart"}' if not deep else '{"p1", "p2", "nostart"}')),
        ('extended', dict(MaxLines=3 if deep else 2, MaxPer=2, Confs='{"extend", "override"}', Probe='{"p1", "n1", "n2"}')),
    ], False, 5000 if deep else 600)


def check_P09(check):
    deep = check.thorough
    explore(check, [
        ('configured', dict(MaxLines=3 if deep else 2, MaxPer=2 if deep else 1, Confs='{"none", "override", "extend", "flip", "unknown", "bad"}',
                            Probe='{"p1", "p2", "n1", "n2", "nostart"}')),
    ], True, 3000 if deep else 500)
