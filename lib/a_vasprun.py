"""vasprun.xml (P14-P21): files of specs/Vasprun.tla, read whole and event driven, complete, cut and damaged."""
import io
import random

import vp

ELEMENTS = {name: number for number, name in enumerate(vp.PERIODIC, 1)}
PARAMS = {'SYSTEM': ['general'], 'NBANDS': ['electronic'], 'NELECT': ['electronic'], 'ISMEAR': ['electronic', 'electronic smearing'],
          'SIGMA': ['electronic', 'electronic smearing'], 'ISPIN': ['electronic', 'electronic spin'],
          'NELM': ['electronic', 'electronic convergence'], 'NSW': ['ionic'], 'SYMPREC': ['symmetry']}
ORBITALS = ['s', 'py', 'pz', 'px', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2', 'f1', 'f2', 'f3', 'f4', 'f5', 'f6', 'f7']
ENERGY_TAG = {'free': 'e_fr_energy', 'noent': 'e_wo_entrp', 'ext': 'e_0_energy'}
ENERGY_KEY = {'free': 'energy_free', 'noent': 'energy_no_entropy', 'ext': 'energy_extrapolated'}
FIELDS = '<field>energy</field><field>xx</field><field>yy</field><field>zz</field><field>xy</field><field>yz</field><field>zx</field>'
STARS = ['****************', '*********', '-********', '*************']


class Render:
    """The text of a document, token by token, and the numbers in it."""

    def __init__(self, doc, rng):
        self.doc = doc
        self.rng = rng
        self.nums = {}      # cell -> number
        self.vals = {}      # token -> text or number of a leaf that is not an array
        self.chunks = []
        self.stack = []
        self.separators = []
        self.rank = 0
        self.eig_copy = None
        self.steps = 0
        self.dims = {}      # token -> (rows, columns)
        last = max([i for i, e in enumerate(doc) if e['k'] == 'open' and e['t'] == 'struct'], default=None)
        first = min([i for i, e in enumerate(doc) if e['k'] == 'open' and e['t'] == 'struct'], default=None)
        self.structs = {}
        # initialpos and finalpos repeat the structure of the first and last step, so make their texts first
        for where, name in ((first, 'initial'), (last, 'final')):
            if where is None:
                continue
            j = where + 1
            while j < len(doc) and doc[j]['k'] == 'leaf':
                if doc[j]['t'] in ('basis', 'pos') and (where, j) not in self.structs:
                    self.structs[(where, j)] = None
                j += 1
            self.structs[name] = {doc[m]['t']: m for m in range(where + 1, j)}
        self.shared = {}
        for i, tok in enumerate(doc):
            self.chunks.append(getattr(self, tok['k'])(i + 1, tok))
            if tok['k'] == 'open':
                self.stack.append(tok)
            elif tok['k'] == 'close':
                self.stack.pop()
        if doc and doc[-1] == {'k': 'close', 't': 'modeling', 'a': '', 'n': 0, 'c': 0, 'd': False}:
            self.tail = rng.choice(['\n', '\n', '\n', '', '\n\n', '\n  \n'])
        else:
            self.tail = ''

    def text(self):
        """The whole file."""
        return ''.join(self.chunks) + self.tail

    def within(self):
        """The section a token is in."""
        names = [e['t'] for e in self.stack]
        if len(names) >= 2 and names[1] == 'calc':
            return names[2] if len(names) >= 3 else ''
        return names[1] if len(names) >= 2 else ''

    def pad(self):
        """Line break and indentation."""
        return '\n' + ' ' * (len(self.stack))

    def number(self, style):
        """Text of a number."""
        rng = self.rng
        if style == 'frac':
            val = rng.uniform(-1, 1)
        elif style == 'wide':
            val = rng.uniform(-999, 9999)
        else:
            val = rng.uniform(-80, 80)
        if rng.random() < 0.06:
            # zero, whole and repeated numbers
            val = rng.choice([0.0, 0.0, -0.0, 1.0, -1.0, 0.5])
        return '%.8f' % val if style != 'eig' else '%.4f' % val

    def matrix(self, tok, leaf, tag, style, values=None):
        """Rows <tag> of a leaf."""
        rows, cols = leaf['n'], leaf['c']
        self.dims[tok] = (rows, cols)
        bad = (self.rng.randrange(rows), self.rng.randrange(cols)) if leaf['d'] and rows and cols else None
        lines = []
        blank = self.rng.random() < 0.04
        for r in range(rows):
            texts = []
            for c in range(cols):
                text = values[r][c] if values else '%.8f' % 0.0 if blank else self.number(style)
                if bad == (r, c):
                    text = self.rng.choice(STARS)
                    self.nums[1000000 * tok + 100 * (r + 1) + c + 1] = float('nan')
                else:
                    self.nums[1000000 * tok + 100 * (r + 1) + c + 1] = float(text)
                texts.append(text)
            joined = ''.join(' %15s' % t for t in texts)
            if bad and bad[0] == r and self.rng.random() < 0.2:
                # the stars also fill the blank in front of them
                joined = ''.join((' %15s' % t) if '*' not in t else '*' * 16 for t in texts)
            lines.append(f'{self.pad()} <{tag}>{joined} </{tag}>')
        return ''.join(lines)

    def varray(self, tok, leaf, name, style='num', values=None):
        """A named array of <v>."""
        return f'{self.pad()}<varray name="{name}" >{self.matrix(tok, leaf, "v", style, values)}{self.pad()}</varray>'

    def noise(self):
        """Content that no reader reports."""
        rng = self.rng
        num = self.number
        if self.within() == '' and len(self.stack) < 2:
            more = ''.join(f'\n  <i type="int" name="{n}">  {rng.randint(1, 90)}</i>' for n in ('NBANDS', 'ISPIN', 'NELM', 'NSW')
                           if rng.random() < 0.4)
            if rng.random() < 0.3:
                more += '\n  <i type="string" name="SYSTEM">other</i>\n  <i name="SIGMA">      9.5</i>'
            return f'\n <incar>\n  <i type="string" name="PREC">accurate</i>{more}\n </incar>'
        kind = rng.randrange(6)
        if kind <= 1:
            return f'{self.pad()}<time name="totalsc">{num("num")}  {num("num")}</time>'
        if kind == 2:
            rows = ''.join(f'<v> {num("frac")} {num("frac")} {num("frac")} </v>' for _ in range(2))
            return (f'{self.pad()}<kpoints><generation param="Gamma"><v type="int" name="divisions">  9 9 9 </v></generation>'
                    f'<varray name="kpointlist" >{rows}</varray><varray name="weights" ><v> 0.5 </v><v> 0.5 </v></varray></kpoints>')
        if kind == 3:
            rows = ''.join(f'<v> {num("num")} {num("num")} {num("num")} </v>' for _ in range(3))
            return f'{self.pad()}<varray name="epsilon_rpa" >{rows}</varray>'
        if kind == 4:
            rows = ''.join('<r> ' + ' '.join(num('num') for _ in range(7)) + ' </r>' for _ in range(2))
            return (f'{self.pad()}<conductivity comment="spin=1"><array><dimension dim="1">gridpoints</dimension>{FIELDS}'
                    f'<set>{rows}</set></array></conductivity>')
        return f'{self.pad()}<separator name="orbital magnetization" ><v name="MAGDIPOLOUT"> {num("num")} {num("num")} {num("num")} </v></separator>'

    # ------------------------------------------------------------------------------------------- tokens
    def open(self, tok, ev):
        """Text of an open token."""
        kind, pad, n = ev['t'], self.pad(), ev['n']
        inside = self.within()
        if kind == 'modeling':
            return '<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>'
        if kind in ('kpoints', 'parameters'):
            self.separators = []
            return f'{pad}<{kind}>'
        if kind in ('initial', 'final'):
            return f'{pad}<structure name="{kind}pos" >'
        if kind == 'struct':
            return f'{pad}<structure>'
        if kind == 'calc':
            self.eig_copy = None
            return f'{pad}<calculation>'
        if kind == 'sc':
            return f'{pad}<scstep>{pad} <time name="dav">    0.11    0.11</time>'
        if kind == 'energy':
            extra = ''
            if inside == 'sc':
                extra = ''.join(f'{pad} <i name="{x}"> {self.number("num")} </i>' for x in ('alphaZ', 'ewald', 'hartreedc'))
            return f'{pad}<energy>{extra}'
        head3 = ('<dimension dim="1">band</dimension><dimension dim="2">kpoint</dimension><dimension dim="3">spin</dimension>')
        if kind == 'eig':
            self.eig_copy = []
            return f'{pad}<eigenvalues>{pad} <array>{head3}<field>eigene</field><field>occ</field>{pad}  <set>'
        if kind in ('eigi', 'vel'):
            name = 'eigenvalues' if kind == 'eigi' else 'eigenvelocities'
            return f'{pad}<{name} comment="interpolated">{pad} <kpoints>'
        if kind == 'spin':
            first = n == 1
            pre = ''
            if inside in ('eigi', 'vel') and first:
                pre = f'{pad}</kpoints>{pad}<eigenvalues><array>{head3}<field>eigene</field>{pad} <set>'
            self.rank = 0
            comment = f'spin{n}' if inside == 'proj' else f'spin {n}'
            return f'{pre}{pad}<set comment="{comment}">'
        if kind == 'kset':
            self.rank = 0
            return f'{pad}<set comment="kpoint {n}">'
        if kind == 'ion':
            return f'{pad}<set comment="ion {n}">'
        if kind == 'proj':
            copy = ''.join(self.eig_copy or [])
            fields = ''.join(f'<field>{x}</field>' for x in ORBITALS[:3])
            return (f'{pad}<projected>{pad} <eigenvalues><array>{head3}<field>eigene</field><field>occ</field><set>{copy}</set></array>'
                    f'</eigenvalues>{pad} <array><dimension dim="1">ion</dimension><dimension dim="2">band</dimension>{fields}{pad}  <set>')
        if kind == 'dos':
            comment = f' comment="{ev["a"]}"' if ev['a'] else ''
            return f'{pad}<dos{comment}>'
        if kind in ('total', 'partial'):
            fields = ('<field>energy</field><field>total</field><field>integrated</field>' if kind == 'total' else
                      '<field>energy</field>' + ''.join(f'<field>{x:>3}</field>' for x in ORBITALS[:4]))
            return (f'{pad}<{kind}>{pad} <array><dimension dim="1">gridpoints</dimension><dimension dim="2">spin</dimension>{fields}'
                    f'{pad}  <set>')
        if kind == 'diel':
            comment = f' comment="{ev["a"]}"' if ev['a'] else ''
            return f'{pad}<dielectricfunction{comment}>'
        if kind == 'dynmat':
            return f'{pad}<dynmat>'
        raise vp.Machinery('open ' + kind)

    def close(self, tok, ev):
        """Text of a close token."""
        kind = ev['t']
        pad = '\n' + ' ' * (len(self.stack) - 1)
        inside = self.within()
        if kind == 'modeling':
            return '\n</modeling>'
        if kind == 'parameters':
            text = ''.join(f'{pad} </separator>' for _ in self.separators)
            self.separators = []
            return (f'{text}{pad} <separator name="response functions" ><i type="int" name="NELM">     1</i>'
                    f'<i type="int" name="NBANDSGW">    -1</i></separator>{pad}</parameters>')
        names = {'initial': '</structure>', 'final': '</structure>', 'struct': '</structure>', 'calc': '</calculation>', 'sc': '</scstep>',
                 'eig': '</set></array></eigenvalues>', 'proj': '</set></array></projected>',
                 'eigi': '</set></array></eigenvalues></eigenvalues>', 'vel': '</set></array></eigenvalues></eigenvelocities>',
                 'kset': '</set>', 'ion': '</set>', 'spin': '</set>', 'diel': '</dielectricfunction>',
                 'total': '</set></array></total>', 'partial': '</set></array></partial>'}
        if kind in names:
            if kind == 'spin' and inside == 'eig':
                if self.rank == 0:      # none of its k-points is left
                    self.eig_copy.append('<set>')
                self.eig_copy.append('</set>')
            end = names[kind]
            return pad + end if self.rng.random() < 0.5 else pad + end.replace('><', f'>{pad}<')
        return f'{pad}</{kind}>'

    def leaf(self, tok, ev):
        """Text of a leaf."""
        kind, pad, inside, rng = ev['t'], self.pad(), self.within(), self.rng
        if kind == 'noise':
            return self.noise()
        if kind == 'version':
            self.vals[tok] = rng.choice(['5.4.1', '5.3.5', '6.3.2', '6.10.12', '5.4.4'])
            tail = rng.choice(['  ', '', '.18Apr17  '])
            return (f'{pad}<generator>{pad} <i name="program" type="string">vasp </i>{pad} <i name="version" type="string">{self.vals[tok]}'
                    f'{tail}</i>{pad} <i name="subversion" type="string">18Apr17 (build 1.2.3) complex </i>{pad}</generator>')
        if kind == 'div':
            values = [[str(rng.randint(1, 24)) for _ in range(3)]]
            self.matrix(tok, ev, 'v', 'num', values)
            if ev['d']:
                body = ' **** ' + '  '.join(values[0][1:])
                self.nums = {c: (float('nan') if c // 1000000 == tok else v) for c, v in self.nums.items()}
            else:
                body = '  '.join(values[0])
            return (f'{pad}<generation param="Monkhorst-Pack">{pad} <v type="int" name="divisions">       {body} </v>'
                    f'{pad} <v name="usershift">      0.0 0.0 0.0 </v>{pad}</generation>')
        if kind == 'kplist':
            return self.varray(tok, ev, 'kpointlist', 'frac')
        if kind == 'weights':
            return self.varray(tok, ev, 'weights', 'frac')
        if kind == 'param':
            return self.param(tok, ev)
        if kind == 'atoms':
            symbols = [rng.choice(sorted(ELEMENTS)) for _ in range(ev['n'])]
            self.vals[tok] = [ELEMENTS[s] for s in symbols]
            if ev['d']:
                where = rng.randrange(ev['n'])
                symbols[where] = rng.choice(['Qq', 'Xx', '**', 'J'])
                self.vals[tok][where] = float('nan')
            style = rng.choice(['%s', '%-2s', '%-2s'])
            rows = ''.join(f'{pad}  <rc><c>{style % s}</c><c>{i:4}</c></rc>' for i, s in enumerate(symbols, 1))
            return (f'{pad}<atominfo>{pad} <atoms>{ev["n"]:8} </atoms>{pad} <types>{len(set(symbols)):8} </types>{pad} <array name="atoms" >'
                    f'<dimension dim="1">ion</dimension><field type="string">element</field><field type="int">atomtype</field>{pad} <set>{rows}'
                    f'{pad} </set></array>{pad} <array name="atomtypes" ><dimension dim="1">type</dimension><set><rc><c>   {ev["n"]}</c>'
                    f'<c>Si</c><c>     28.08500000</c><c>      4.0</c><c> PAW_PBE Si 05Jan2001     </c></rc></set></array>{pad}</atominfo>')
        if kind in ('basis', 'pos'):
            values = None
            name = 'basis' if kind == 'basis' else 'positions'
            if inside in ('initial', 'final', 'struct'):
                source = tok - 1 if inside == 'struct' else self.structs.get(inside, {}).get(kind)
                shape = (source, ev['n'], ev['c'])
                if shape not in self.shared:
                    self.shared[shape] = [[self.number('frac' if kind == 'pos' else 'num') for _ in range(ev['c'])] for _ in range(ev['n'])]
                values = self.shared[shape]
            body = self.varray(tok, ev, name, values=values)
            if kind == 'basis':
                rec = ''.join(f'<v> {self.number("frac")} {self.number("frac")} {self.number("frac")} </v>' for _ in range(3))
                return f'{pad}<crystal>{body}<i name="volume">    160.1 </i><varray name="rec_basis" >{rec}</varray>{pad}</crystal>'
            tail = ''
            if rng.random() < 0.2:
                tail = f'{pad}<varray name="velocities" ><v> 1.0 2.0 3.0 </v></varray>'
            elif rng.random() < 0.2:
                tail = f'{pad}<varray name="selective" type="logical"><v> T F T </v></varray>'
            return body + tail
        if kind in ('forces', 'stress'):
            return self.varray(tok, ev, kind)
        if kind == 'ene':
            text = rng.choice(STARS) if ev['d'] else self.number('wide')
            self.vals[tok] = float('nan') if ev['d'] else float(text)
            return f'{pad}<i name="{ENERGY_TAG[ev["a"]]}">{text:>17} </i>'
        if kind == 'rows':
            return self.rows(tok, ev, inside)
        if kind == 'efermi':
            text = rng.choice(STARS) if ev['d'] else self.number('num')
            self.vals[tok] = float('nan') if ev['d'] else float(text)
            return f'{pad}<i name="efermi">{text:>16} </i>'
        if kind in ('imag', 'real'):
            body = self.matrix(tok, ev, 'r', 'num')
            return f'{pad}<{kind}><array><dimension dim="1">gridpoints</dimension>{FIELDS}{pad} <set>{body}{pad} </set></array></{kind}>'
        if kind in ('epsilon', 'epsion'):
            return self.varray(tok, ev, 'epsilon' if kind == 'epsilon' else 'epsilon_ion')
        if kind == 'born':
            lines = self.matrix(tok, ev, 'v', 'num').split('\n')[1:]
            sets = ''.join(f'{pad} <set>' + ''.join('\n' + x for x in lines[i:i + 3]) + f'{pad} </set>' for i in range(0, len(lines), 3))
            return f'{pad}<array name="born_charges" ><dimension dim="1">ion</dimension>{sets}{pad}</array>'
        if kind == 'hessian':
            return self.varray(tok, ev, 'hessian')
        if kind == 'dyneval':
            body = self.matrix(tok, ev, 'v', 'num').strip()
            return f'{pad}<v name="eigenvalues"{body[2:]}'
        if kind == 'dynevec':
            return self.varray(tok, ev, 'eigenvectors', 'frac')
        raise vp.Machinery('leaf ' + kind)

    def param(self, tok, ev):
        """An entry of parameters, in its separators."""
        rng, name, text = self.rng, ev['a'], ''
        path = PARAMS[name]
        while self.separators != path[:len(self.separators)]:
            text += f'{self.pad()} </separator>'
            self.separators.pop()
        while len(self.separators) < len(path):
            self.separators.append(path[len(self.separators)])
            text += f'{self.pad()} <separator name="{self.separators[-1]}" >'
        if name == 'SYSTEM':
            value = self.vals[tok] = rng.choice(['unknown system', 'Si8', 'fcc Ni (2 x 2)', 'NBANDS = 3', 'slab  of   Si', '5', 'Gr\xfcn'])
            form = f'<i type="string" name="{name}">{value}</i>'
        elif name in ('SIGMA', 'SYMPREC', 'NELECT'):
            value = '%.8f' % rng.choice([rng.uniform(0.00001, 99), rng.uniform(0.00001, 99), 0.0, -0.2])
            self.vals[tok] = float(value)
            form = f'<i name="{name}">{value:>16}</i>'
        else:
            self.vals[tok] = ev['n'] if ev['n'] else rng.choice([-5, -1, 0, 1, 2, 60, 1000])
            value = self.vals[tok]
            form = f'<i type="int" name="{name}">{value:>6}</i>'
        if ev['d'] and name != 'SYSTEM':
            self.vals[tok] = float('nan')
            form = form.split('>')[0] + '>' + rng.choice(STARS) + '</i>'
        return f'{text}{self.pad()}  {form}'

    def rows(self, tok, ev, inside):
        """The rows of a k-point, a band or a density of states."""
        pad = self.pad()
        self.rank += 1
        style = 'eig' if inside in ('eig', 'proj') or self.rng.random() < 0.5 else 'num'
        body = self.matrix(tok, ev, 'r', style)
        if inside == 'dos':
            return body
        label = f'band {self.rank}' if inside == 'proj' else f'kpoint {self.rank}'
        text = f'{pad}<set comment="{label}">{body}{pad}</set>'
        if inside == 'eig':
            if self.rank == 1:
                spin = [e for e in self.stack if e['t'] == 'spin'][-1]['n']
                self.eig_copy.append(f'<set comment="spin {spin}">')
            self.eig_copy.append(text)
        return text


# ---------------------------------------------------------------------------------------- expectations

def expected(exp, ren, kb):
    """Quantity -> value that is to be reported, of everything that does not depend on the ionic steps."""
    doc, nums, vals = ren.doc, ren.nums, ren.vals

    def mat(tok, flat=False):
        if not tok:
            return None
        leaf = doc[tok - 1]
        table = [[nums[1000000 * tok + 100 * r + c] for c in range(1, leaf['c'] + 1)] for r in range(1, leaf['n'] + 1)]
        return [x for row in table for x in row] if flat else table

    def spins(q, pick):
        if not q['has']:
            return None
        names = ['total'] if q['ns'] == 1 else ['up', 'down']
        return {n: pick(v) for n, v in zip(names, q['v'])}

    def axes(table):
        """[band][k] or [k][band]."""
        return [list(x) for x in zip(*table)] if kb else table

    def dos(q):
        if not q['has']:
            return None
        energy = [nums[c] for c in q['en']]
        fermi = vals[q['ef']] if q['ef'] else None
        chans = [{'total': [nums[c] for c in q['tot'][u]], 'integrated': [nums[c] for c in q['int'][u]],
                  'partial': [[[nums[c] for c in e] for e in a] for a in q['part'][u]] if q['part'][u] else None} for u in range(q['ns'])]
        if q['ns'] == 2:
            return {'up': chans[0], 'down': chans[1], 'total': {'fermi_level': fermi, 'energy': energy}}
        return {'total': dict(chans[0], fermi_level=fermi, energy=energy)}

    eig = exp['eig']
    out = {
        'version': vals[exp['ver']] if exp['ver'] else None,
        'kpoints': mat(exp['kp']), 'kpointsw': mat(exp['kw'], True),
        'divisions': [int(x) if x == x else x for x in mat(exp['div'], True)] if exp['div'] else None,
        'species': vals[exp['sp']] if exp['sp'] else None,
        'eigenvalues': spins(eig, lambda v: axes([[nums[k[0]] for k in b] for b in v])),
        'occupancies': spins(eig, lambda v: axes([[nums[k[1]] for k in b] for b in v])) if eig['has'] and eig['cols'] > 1 else None,
        'eigenvalues_specific': spins(exp['eigi'], lambda v: axes([[nums[k[0]] for k in b] for b in v])),
        'eigenvelocities': spins(exp['vel'], lambda v: axes([[[nums[c] for c in k] for k in b] for b in v])),
        'projectors': spins(exp['proj'], lambda v: [axes([[[nums[c] for c in k] for k in b] for b in a]) for a in v]),
        'dos': dos(exp['dos']), 'dos_specific': dos(exp['dosi']),
        'epsilon': mat(exp['eps']), 'epsilon_ion': mat(exp['epsi']),
        'hessian': mat(exp['hess']),
        'dynmat': {'eigenvalues': mat(exp['dyn']['val'], True), 'eigenvectors': mat(exp['dyn']['vec'])} if exp['dyn']['has'] else None,
        'born': [[[nums[c] for c in r] for r in a] for a in exp['born']] if exp['born'] else None,
    }
    sep = exp['eigi'] if exp['eigi']['has'] else exp['vel']
    out['kpoints_specific'] = mat(sep['kp']) if sep['has'] else None
    out['kpointsw_specific'] = mat(sep['kw'], True) if sep['has'] else None
    out['fermi'] = out['dos']['total']['fermi_level'] if out['dos'] else None
    out['fermi_specific'] = out['dos_specific']['total']['fermi_level'] if out['dos_specific'] else None
    diel = exp['diel']
    out['energy'] = [nums[c] for c in diel['en']] if diel['has'] else None
    out['imag'] = [[nums[c] for c in r] for r in diel['im']] if diel['has'] else None
    out['real'] = [[nums[c] for c in r] for r in diel['re']] if diel['has'] else None
    for name, tok in exp['par'].items():
        out['par.' + name.lower()] = vals[tok] if tok else None
    return out


def observed(xml):
    """Quantity -> getter, for the same quantities."""
    table = {
        'version': xml.get_version, 'kpoints': xml.get_kpoints, 'kpointsw': xml.get_kpointsw,
        'divisions': lambda: xml.get_dict()['lattice']['kpointdiv'], 'species': xml.get_species,
        'eigenvalues': xml.get_eigenvalues, 'occupancies': xml.get_occupancies,
        'eigenvalues_specific': xml.get_eigenvalues_specific, 'eigenvelocities': xml.get_eigenvelocities,
        'projectors': xml.get_projectors, 'dos': xml.get_dos, 'dos_specific': xml.get_dos_specific,
        'epsilon': xml.get_epsilon, 'epsilon_ion': xml.get_epsilon_ion, 'hessian': xml.get_hessian, 'dynmat': xml.get_dynmat,
        'born': xml.get_born, 'kpoints_specific': xml.get_kpoints_specific, 'kpointsw_specific': xml.get_kpointsw_specific,
        'fermi': xml.get_fermi_level, 'fermi_specific': xml.get_fermi_level_specific,
    }
    for key in ('energy', 'imag', 'real'):
        table[key] = lambda key=key: (xml.get_dielectrics() or {}).get(key)
    for key in PARAMS:
        table['par.' + key.lower()] = lambda key=key.lower(): xml.get_parameters()[key]
    return table


BANDS = ['eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities', 'projectors', 'kpoints', 'kpointsw', 'kpoints_specific',
         'kpointsw_specific']
DOS = ['dos', 'dos_specific', 'fermi', 'fermi_specific']
RESPONSE = ['energy', 'imag', 'real', 'epsilon', 'epsilon_ion', 'hessian', 'dynmat', 'born', 'kpoints', 'kpointsw', 'divisions', 'version',
            'species'] + ['par.' + n.lower() for n in PARAMS]
STEPS = ['steps', 'species']
ALL = sorted(set(BANDS + DOS + RESPONSE + STEPS + ['energies']))
SELECTED = {'cell': 'get_unitcell', 'pos': 'get_positions', 'forces': 'get_forces', 'stress': 'get_stress'}

# what damage of a part of the file may make absent
AFFECTS = {
    'eig': ['eigenvalues', 'occupancies'], 'eigi': ['eigenvalues_specific', 'kpoints_specific', 'kpointsw_specific'],
    'vel': ['eigenvelocities', 'kpoints_specific', 'kpointsw_specific'], 'proj': ['projectors'], 'dos': ['dos', 'fermi'],
    'dosi': ['dos_specific', 'fermi_specific'], 'kpoints': ['kpoints', 'kpointsw', 'divisions'], 'diel': ['energy', 'imag', 'real'],
    'parameters': ['par.' + n.lower() for n in PARAMS] + BANDS, 'dynmat': ['hessian', 'dynmat'], 'born': ['born'],
    'epsilon': ['epsilon'], 'epsion': ['epsilon_ion'], 'atoms': ALL, 'energies': ['energies'],
    'basis': ['cell'], 'pos': ['pos'], 'forces': ['forces'], 'stress': ['stress'], 'noise': [],
}


def steps_diff(exp, ren, xml, all_steps, absent):
    """Structures, forces and stress of the ionic steps, in every selection."""
    doc, nums = ren.doc, ren.nums

    def mat(tok):
        leaf = doc[tok - 1]
        return [[nums[1000000 * tok + 100 * r + c] for c in range(1, leaf['c'] + 1)] for r in range(1, leaf['n'] + 1)]

    may = dict((t, tok) for t, tok in exp['may'])
    for quantity, getter in SELECTED.items():
        sel = exp['sel'][quantity]
        get = getattr(xml, getter)
        # a complete array in a structure that the end of the file left open
        extra = may.get({'cell': 'basis', 'pos': 'pos'}.get(quantity)) if exp['open'] == 'struct' else None
        lists = [sel['all'] if sel['has'] else []]
        if extra:
            lists.append(lists[0] + [[exp['ncalc'], extra]])
        diffs = []
        for steps in lists:
            diffs.append(one_selection(quantity, steps, get, mat, all_steps, exp, quantity in absent or 'species' in absent))
            if not diffs[-1]:
                break
        else:
            return diffs[0]
    if exp['sel']['pos']['has'] and not absent and exp['ncalc']:
        res = vp.call(xml.get_lattice, 'last')
        if res[0] != 'ok' or sorted(res[1]) != ['positions', 'species', 'unitcell']:
            return f'get_lattice("last"): {res}'[:300]
        return (vp.deep(plain(xml.get_positions('last')), res[1]['positions'], 'lattice positions')
                or vp.deep(plain(xml.get_unitcell('last')), res[1]['unitcell'], 'lattice unitcell')
                or vp.deep(plain(xml.get_species()), res[1]['species'], 'lattice species'))
    return None


def plain(value):
    """numpy to lists."""
    return value.tolist() if hasattr(value, 'tolist') else value


def one_selection(quantity, steps, get, mat, all_steps, exp, absent):
    """First difference of one quantity of the ionic steps."""
    res = vp.call(get, 'all')
    if res[0] != 'ok':
        return f'{quantity} of all steps: {res}'
    if absent:
        if res[1] is None or not all_steps:
            return None   # the first and last structure are also recorded outside of the steps
        want = {n: mat(tok) for n, tok in steps}
        if exp['ncalc'] == 1 and 1 in want:
            want[2] = want[1]
        for key, val in res[1].items():
            if val is not None and (key not in want or vp.deep(want[key], val)):
                return f'{quantity}[{key}] is not what the file records although it is damaged'
        return None
    if not steps:
        if not all_steps:
            return None   # the structure the file begins with
        return None if res[1] is None else f'{quantity}: expected none, got {str(res[1])[:200]}'
    if res[1] is None:
        return f'{quantity}: expected steps {[n for n, _ in steps]}, got none'
    if all_steps:
        want = {n: mat(tok) for n, tok in steps}
        obs = dict(res[1])
        if exp['ncalc'] == 1 and set(obs) == {1, 2}:
            want[2] = want[1]   # first and last of a single step
        diff = vp.deep(want, obs, f'{quantity} of all steps')
        if diff:
            return diff
    last = vp.call(get, 'last')
    if last[0] != 'ok':
        return f'{quantity} of the last step: {last}'
    diff = vp.deep(mat(steps[-1][1]), last[1], f'{quantity} of the last step')
    if diff:
        return diff
    if steps[0][0] == 1:
        first = vp.call(get, 'initial')
        if first[0] != 'ok':
            return f'{quantity} of the initial step: {first}'
        diff = vp.deep(mat(steps[0][1]), first[1], f'{quantity} of the initial step')
        if diff:
            return diff
    for status in ('final', 'first', 3, None):
        if vp.call(get, status) != ('exit', 507):
            return f'{quantity}: the selection {status!r} is not refused'
    return None


def energies_diff(exp, ren, xml, rng, absent):
    """Energies in every selection, for lists of types."""
    vals = ren.vals
    types = sorted(ENERGY_KEY)
    lists = [None] + [rng.sample(types, k) for k in (1, 2, 3)]
    if not absent and exp['energies']['has']:
        for status in ('final', 'any', None):
            if vp.call(xml.get_energies, status) != ('exit', 507):
                return f'energies: the selection {status!r} is not refused'
    for bad in (['energy_total'], ['energy_free', 'e_0_energy'], 'energy_free', ('energy_free',), {'energy_free': 1}):
        res = vp.call(xml.get_energies, 'all', bad)
        if res[:2] != ('exc', 'ValueError'):
            return f'energies: the types {bad!r} are not refused: {res}'
    for status in ('all', 'last', 'initial'):
        for chosen in lists:
            for nosc in (True, False):
                args = [status] + ([] if chosen is None else [[ENERGY_KEY[t] for t in chosen]])
                res = vp.call(xml.get_energies, *args, **({} if nosc and rng.random() < 0.5 else {'nosc': nosc}))
                note = f'energies {status} {chosen} nosc={nosc}'
                if exp['energies']['has'] and status == 'initial' and not exp['energies'].get('first', True):
                    continue
                if res[0] != 'ok':
                    return f'{note}: {res}'
                if not exp['energies']['has']:
                    if res[1] is not None:
                        return f'{note}: expected none, got {str(res[1])[:200]}'
                    continue
                if absent and res[1] is None:
                    continue
                want = {}
                for kind in chosen or ['ext']:
                    part = exp['energies']['sel'][status][kind]['nosc' if nosc else 'full']
                    want[ENERGY_KEY[kind]] = [vals[t] for t in part['vals']]
                    want[ENERGY_KEY[kind] + '_final'] = [vals[t] for t in part['fin']]
                    want['electronic_steps'] = part['steps']
                diff = vp.deep(want, res[1], note)
                if diff:
                    return diff
    return None


def without_open(exp):
    """The energies when the ionic step the end of the file left open is not counted."""
    sel = exp['energies']['sel']
    if len(sel['all']['ext']['full']['fin']) <= 1:
        return dict(exp, energies={'has': False})
    new = {'all': {}, 'last': {}, 'initial': sel['initial']}
    for kind in ENERGY_KEY:
        new['all'][kind], new['last'][kind] = {}, {}
        for form in ('full', 'nosc'):
            part = sel['all'][kind][form]
            cut = len(part['vals']) - part['steps'][-1]
            short = {'vals': part['vals'][:cut], 'fin': part['fin'][:-1], 'steps': part['steps'][:-1]}
            new['all'][kind][form] = short
            new['last'][kind][form] = {'vals': short['vals'][cut - short['steps'][-1]:], 'fin': short['fin'][-1:], 'steps': short['steps'][-1:]}
    return dict(exp, energies={'has': True, 'sel': new, 'first': exp['energies'].get('first', True)})


def first_completed(exp, ren):
    """Whether the first ionic step is completed (otherwise `initial` has no agreed meaning)."""
    if exp['energies']['has']:
        first = exp['energies']['sel']['all']['ext']['full']['fin'][0]
        count = sum(1 for e in ren.doc[:first] if e['k'] == 'open' and e['t'] == 'calc')
        exp['energies']['first'] = count == 1
    return exp


def difference(exp, ren, xml, focus, rng, kb=False, all_steps=True):
    """First difference between what is to be reported and what is."""
    exp = first_completed(exp, ren)
    absent = set(q for d in exp['doubt'] for q in AFFECTS[d])
    want = expected(exp, ren, kb)
    get = observed(xml)
    may = {}
    if exp['may']:
        leafs = dict((t, tok) for t, tok in exp['may'])
        whole = dict(exp, kp=leafs.get('kplist', exp['kp']), kw=leafs.get('weights', exp['kw']), div=leafs.get('div', exp['div']),
                     par={n: leafs.get(n, t) for n, t in exp['par'].items()})
        may = expected(whole, ren, kb) if exp['open'] in ('kpoints', 'parameters') else {}
    for name in focus:
        if name == 'steps':
            diff = steps_diff(exp, ren, xml, all_steps, absent)
        elif name == 'energies':
            diff = energies_diff(exp, ren, xml, rng, 'energies' in absent)
            if diff and exp['lastopen'] and exp['energies']['has']:
                diff = energies_diff(without_open(exp), ren, xml, rng, 'energies' in absent) and diff
        else:
            res = vp.call(get[name])
            if res[0] != 'ok':
                return f'{name}: {res}'
            obs = res[1]
            if isinstance(obs, str):
                obs = obs.strip()
            if name in absent and obs is None:
                continue
            diff = vp.deep(want[name], obs, name, tol=1e-12)
            if diff and name in may and not vp.deep(may[name], obs, name, tol=1e-12):
                diff = None
        if diff:
            return diff
    return None


# ----------------------------------------------------------------------------------------------- judges

def source(kind, text):
    """Arguments that hand the content to the reader."""
    if kind == 'path':
        return {'file_path': 'vasprun.xml'}
    if kind == 'binary':
        return {'file_handler': open('vasprun.xml', 'rb')}
    if kind == 'text':
        return {'file_handler': open('vasprun.xml', 'r', encoding='latin-1')}
    if kind == 'bytes':
        return {'file_handler': io.BytesIO(text.encode('latin-1'))}
    return {'file_handler': io.StringIO(text)}


def read(text, kind='path', **kwargs):
    """Read the text by the given source."""
    from parsevasp.vasprun import Xml
    with open('vasprun.xml', 'w', encoding='latin-1', newline='') as handle:
        handle.write(text)
    src = source(kind, text)
    try:
        return vp.call(Xml, **src, **kwargs)
    finally:
        if 'file_handler' in src:
            src['file_handler'].close()


def judge_complete(case):
    """A complete file in both readers."""
    rng = random.Random(case['salt'])
    ren = Render(case['doc'], rng)
    text = ren.text()
    if case.get('boundary'):
        text = straddle(ren, rng)
    exp = case['exp']
    sources = ['path', 'binary', 'text', 'bytes', 'string']
    runs = []
    if case['both']:
        for kind in sources if case.get('sources') else [rng.choice(sources)]:
            runs += [(kind, False, True, False), (kind, True, True, False)]
        runs += [('path', rng.random() < 0.5, True, True), (rng.choice(sources), rng.random() < 0.7, False, False)]
    else:
        runs += [(rng.choice(sources), False, True, False), (rng.choice(sources), True, True, rng.random() < 0.5),
                 (rng.choice(sources), False, True, True)]
    if case.get('ends'):
        runs += [(rng.choice(sources), False, False, False), (rng.choice(sources), True, False, rng.random() < 0.5)]
    for kind, event, every, kb in runs:
        note = f'({kind}, event={event}, extract_all={every}, k_before_band={kb}) {text}'
        res = read(text, kind, event=event, extract_all=every, k_before_band=kb)
        if res[0] != 'ok':
            if exp['doubt']:
                continue
            return {'bad': f'refused a valid file: {res}', 'input': note}
        xml = res[1]
        if xml.truncated is not False and 'truncated' in case['focus']:
            return {'bad': f'truncated is {xml.truncated!r} for a complete file', 'input': note}
        diff = difference(exp, ren, xml, [f for f in case['focus'] if f != 'truncated'], random.Random(case['salt']), kb, every)
        if diff:
            return {'bad': diff, 'input': note}
    return {'input': text[:1200], 'nontrivial': bool(exp['ncalc']) or 'par.nsw' in case['focus']}


def straddle(ren, rng):
    """Fill the file such that a block in which the file is read ends inside some token."""
    size = 32768
    sizes = [len(c) for c in ren.chunks]
    which = rng.randrange(1, len(sizes))
    offset = sum(sizes[:which]) + rng.randrange(sizes[which])
    room = -offset % size
    filler = '<!--' + 'x' * room + '-->'
    room = max(0, room - 7)
    filler = '\n<!--' + 'x' * max(0, room - 1) + '-->' if room else ''
    # right behind the opening of the file
    return ren.chunks[0] + filler + ''.join(ren.chunks[1:]) + ren.tail


def judge_cut(case):
    """A file that ends somewhere inside the token behind the prefix."""
    rng = random.Random(case['salt'])
    ren = Render(case['doc'], rng)
    pos, exp = case['pos'], case['exp']
    head = ''.join(ren.chunks[:pos])
    following = ren.chunks[pos]
    bad_at = [0, 1, len(following) - 1]
    cuts = sorted(set([c for c in bad_at if 0 <= c < len(following)] + [rng.randrange(len(following)) for _ in range(case['cuts'])]))
    if not case.get('every'):
        cuts = rng.sample(cuts, min(len(cuts), case['cuts']))
        if len(following) - 1 not in cuts and rng.random() < 0.5:
            cuts.append(len(following) - 1)
    for cut in cuts:
        text = head + following[:cut]
        if rng.random() < 0.2:
            text = text.rstrip() or text
        note = f'(cut at byte {len(text)}) {text}'
        for every in ((True, False) if case.get('ends') else (True,)):
            res = read(text, rng.choice(['path', 'binary', 'bytes', 'text']), extract_all=every)
            if res[0] != 'ok':
                if pos == 0:
                    continue
                return {'bad': f'refused: {res}', 'input': note}
            if res[1].truncated is not True:
                return {'bad': f'truncated is {res[1].truncated!r}', 'input': note}
            diff = difference(exp, ren, res[1], ALL, random.Random(case['salt']), all_steps=every)
            if diff:
                return {'bad': diff + f' (extract_all={every})', 'input': note}
        res = read(text, 'path', event=True)
        if res[0] == 'ok':
            if res[1].truncated is not True:
                return {'bad': f'event driven: truncated is {res[1].truncated!r}', 'input': note}
            diff = difference(exp, ren, res[1], ALL, random.Random(case['salt']))
            if diff:
                return {'bad': 'event driven: ' + diff, 'input': note}
    return {'input': head[-600:] + following[:cuts[-1]] if cuts else '', 'traces': len(cuts), 'nontrivial': pos > 5}


# ------------------------------------------------------------------------------------------- documents

def leaf(kind, rows=1, cols=1, name=''):
    """A leaf token."""
    return {'k': 'leaf', 't': kind, 'a': name, 'n': rows, 'c': cols, 'd': False}


def elem(kind, inner, name='', number=0):
    """Open token, content, close token."""
    return ([{'k': 'open', 't': kind, 'a': name, 'n': number, 'c': 0, 'd': False}] + inner
            + [{'k': 'close', 't': kind, 'a': '', 'n': 0, 'c': 0, 'd': False}])


def spins(count, inner):
    """One set for each spin."""
    return sum((elem('spin', inner(), number=u) for u in range(1, count + 1)), [])


def energy():
    """Energies."""
    return elem('energy', [leaf('ene', name='free'), leaf('ene', name='noent'), leaf('ene', name='ext')])


class Shape:
    """Sizes of a random file."""

    def __init__(self, rng, small=False, big=''):
        pick = rng.choice
        self.rng = rng
        self.na = pick([1, 2, 3] if small else [1, 2, 3, 5, 8, 12])
        self.nk = pick([1, 2] if small else [1, 2, 3, 4, 7, 10])
        self.nb = pick([1, 2] if small else [1, 2, 3, 4, 8, 12])
        self.ns = pick([1, 1, 2])
        self.separate = pick(['', '', 'eigi', 'vel'])
        if big:
            self.na, self.nk, self.nb = {'atoms': (pick([26, 101]), 1, 2), 'kpts': (1, pick([31, 101]), 2), 'bands': (2, 1, pick([40, 101])),
                                         'steps': (2, 1, 1),
                                         'matrix': (26, 1, 1)}[big]
        self.absent = set(n for n in PARAMS if n not in ('ISPIN', 'NBANDS') and rng.random() < 0.1)


def dos(sh, comment, ne, cols, polar=1):
    """A density of states with `cols` columns of projections."""
    ions = sum((elem('ion', spins(polar, lambda: [leaf('rows', ne, cols)]), number=i) for i in range(1, sh.na + 1)), []) if cols else []
    return elem('dos', ([leaf('efermi')] if sh.rng.random() < 0.9 else []) + elem('total', spins(sh.ns, lambda: [leaf('rows', ne, 3)])) + (elem('partial', ions) if cols else []),
                comment)


def header(sh):
    """The file up to the first ionic step."""
    rng = sh.rng
    doc = [{'k': 'open', 't': 'modeling', 'a': '', 'n': 0, 'c': 0, 'd': False}]
    doc += [leaf('version')] if rng.random() < 0.9 else []
    doc += [leaf('noise')] if rng.random() < 0.7 else []
    doc += elem('kpoints', ([leaf('div', 1, 3)] if rng.random() < 0.7 else []) + [leaf('kplist', sh.nk, 3), leaf('weights', sh.nk, 1)])
    pars = [leaf('param', {'NBANDS': sh.nb, 'ISPIN': sh.ns}.get(n, 0), 1, n) for n in
            ('SYSTEM', 'NBANDS', 'NELECT', 'ISMEAR', 'SIGMA', 'ISPIN', 'NELM', 'NSW', 'SYMPREC') if n not in sh.absent]
    doc += elem('parameters', pars) + [leaf('atoms', sh.na, 1)]
    return doc + elem('initial', [leaf('basis', 3, 3), leaf('pos', sh.na, 3)])


def calculation(sh, parts, last):
    """An ionic step. Response data only in the last one."""
    rng = sh.rng
    inner = []
    for _ in range(rng.choice(parts.get('sc', [0, 1, 1, 2, 3, 12]))):
        inner += elem('sc', energy())
    inner += [leaf('noise')] if rng.random() < 0.2 else []
    if rng.random() < parts.get('struct', 1):
        inner += elem('struct', [leaf('basis', 3, 3), leaf('pos', sh.na, 3)])
    inner += [leaf('forces', sh.na, 3)] if rng.random() < parts.get('forces', 1) else []
    inner += [leaf('stress', 3, 3)] if rng.random() < parts.get('stress', 0.8) else []
    inner += energy() if rng.random() < parts.get('energy', 1) else []
    inner += [leaf('noise')] if rng.random() < 0.5 else []
    if (last or rng.random() < 0.5) and 'response' in parts:
        choice = rng.randrange(6)
        if choice == 0:
            inner += elem('diel', [leaf('imag', 3, 7), leaf('real', 3, 7)])
        elif choice == 1:
            pair = [elem('diel', [leaf('imag', n, 7), leaf('real', n, 7)], c) for n, c in ((4, 'density-density'), (2, 'current-current'))]
            rng.shuffle(pair)
            inner += pair[0] + pair[1]
        elif choice == 2:
            inner += elem('diel', [leaf('imag', 30, 7), leaf('real', 30, 7)], rng.choice(['', 'density-density']))
        inner += [leaf('epsilon', 3, 3)] if rng.random() < 0.5 else []
        inner += [leaf('noise')] if rng.random() < 0.3 else []
        inner += [leaf('epsion', 3, 3)] if rng.random() < 0.4 else []
        inner += [leaf('born', 3 * sh.na, 3)] if rng.random() < 0.5 else []
        dim = 3 * sh.na
        dyn = ([leaf('hessian', dim, dim)] if rng.random() < 0.6 else [])
        dyn += [leaf('dyneval', 1, dim), leaf('dynevec', dim, dim)] if rng.random() < 0.6 else []
        inner += elem('dynmat', dyn) if dyn and last else []
    if 'bands' in parts:
        cols = rng.choice([2, 2, 2, 1])
        eig = elem('eig', spins(sh.ns, lambda: [leaf('rows', sh.nb, cols) for _ in range(sh.nk)]))
        if (last or rng.random() < 0.5) and parts.get('separate', True):
            which = sh.separate
            if which:
                nk = rng.choice([1, 2, 5])
                wide = 4 if which == 'vel' else rng.choice([1, 2])
                inner += elem(which, [leaf('kplist', nk, 3), leaf('weights', nk, 1)]
                              + spins(sh.ns, lambda: [leaf('rows', sh.nb, wide) for _ in range(nk)]))
        inner += eig
    if 'dos' in parts:
        ne = rng.choice([1, 2, 5, 20])
        if rng.random() < 0.35:
            inner += dos(sh, 'interpolated', rng.choice([1, 2, 7]), rng.choice([0, 0, 4]), sh.ns)
        if rng.random() < 0.85:
            polar = rng.choice([2, 2, 2, 1]) if sh.ns == 2 else 1 if rng.random() < 0.7 else 4
            inner += dos(sh, '', ne, rng.choice([0, 2, 4, 10, 17]), polar)
    if 'bands' in parts and rng.random() < 0.5:
        orbitals = rng.choice([3, 4, 9, 16])
        sets = lambda: sum((elem('kset', [leaf('rows', sh.na, orbitals) for _ in range(sh.nb)], number=k) for k in range(1, sh.nk + 1)), [])
        inner += elem('proj', spins(sh.ns, sets))
    return elem('calc', inner)


def document(rng, parts, steps, small=False, big=''):
    """A random complete file."""
    sh = Shape(rng, small, big)
    if big == 'steps':
        steps, parts = 50, dict(parts, sc=[0, 1, 1, 2])
    doc = header(sh)
    for n in range(1, steps + 1):
        sure = dict(parts) if n > 1 else dict(parts, struct=1, forces=1, energy=1)
        doc += calculation(sh, sure, n == steps)
    return doc + elem('final', [leaf('basis', 3, 3), leaf('pos', sh.na, 3)]) + [{'k': 'close', 't': 'modeling', 'a': '', 'n': 0, 'c': 0, 'd': False}]


def damages(doc, rng):
    """The document with one leaf damaged, a parameter missing, or a count that does not fit."""
    out = []
    for i, ev in enumerate(doc):
        if ev['k'] != 'leaf' or ev['t'] in ('version', 'noise') or ev['a'] == 'SYSTEM':
            continue
        new = [dict(e) for e in doc]
        new[i]['d'] = True
        out.append(new)
    for name in ('ISPIN', 'NBANDS'):
        out.append([e for e in doc if e['a'] != name])
    out.append([e for e in doc if e['t'] != 'atoms'])
    out.append([e for e in doc if e['t'] != 'kpoints' and not (e['t'] in ('div', 'kplist', 'weights') and e is not None
                                                                and in_kpoints(doc, e))])
    rows = [i for i, e in enumerate(doc) if e['t'] == 'rows' and section(doc, i) in ('eig', 'proj', 'eigi', 'vel')]
    for i in rng.sample(rows, min(8, len(rows))):
        for delta in (1, -1):
            if doc[i]['n'] + delta > 0:
                new = [dict(e) for e in doc]
                new[i]['n'] += delta
                out.append(new)
        out.append(doc[:i] + doc[i + 1:])
        out.append(doc[:i] + [doc[i]] + doc[i:])
    # every table of a section holds one row more or less, or another number of bands is declared
    for part in sorted({section(doc, i) for i in rows}):
        inner = {i for i in rows if section(doc, i) == part}
        for delta in (1, -1):
            if all(doc[i]['n'] + delta > 0 for i in inner):
                out.append([dict(e, n=e['n'] + delta) if i in inner else e for i, e in enumerate(doc)])
    for delta in (1, -1):
        if all(e['n'] + delta > 0 for e in doc if e['a'] == 'NBANDS'):
            out.append([dict(e, n=e['n'] + delta) if e['a'] == 'NBANDS' else e for e in doc])
    return out


def in_kpoints(doc, ev):
    """Whether this very token belongs to the k-points of the file."""
    for i, other in enumerate(doc):
        if other is ev:
            return section(doc, i) == 'kpoints'
    return False


def section(doc, i):
    """The section token i is in."""
    stack = []
    for ev in doc[:i]:
        if ev['k'] == 'open':
            stack.append(ev['t'])
        elif ev['k'] == 'close':
            stack.pop()
    if len(stack) > 1 and stack[1] == 'calc':
        return stack[2] if len(stack) > 2 else ''
    return stack[1] if len(stack) > 1 else ''


# ---------------------------------------------------------------------------------------------- checks

def cfg(spec, mode, atoms=1, kpts=1, bands=1, steps=1, sc=0):
    """Configuration of a TLC run."""
    return (f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n  Mode = "{mode}"\n  MaxAtoms = {atoms}\n  MaxK = {kpts}\n  MaxB = {bands}\n'
            f'  MaxSteps = {steps}\n  MaxSc = {sc}\n')


def wants(check, name):
    """Whether the group is to be run (only one is when a violation is replayed)."""
    return check.replay is None or check.replay.get('group') == name


def exhaustive(check, name, focus, config, both=False, ends=True, cap=None):
    """Every file of the specification within the bounds."""
    if not wants(check, name):
        return
    res = vp.tlc('Vasprun', config)
    recs = sorted(res['records'], key=lambda r: (len(r['doc']), str(r['doc'])))
    check.add_tlc(res, name, cap is None or len(recs) <= cap)
    if cap is not None and len(recs) > cap:
        recs = check.rng(name).sample(recs, cap)
    cases = [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-{name}{i}', focus=focus, both=both, ends=ends) for i, r in enumerate(recs)]
    check.run(name, cases, judge_complete, 8)


def large(check, name, focus, docs, **options):
    """Documents whose outcome the specification predicts."""
    if not wants(check, name):
        return
    res = vp.tlc_docs('Vasprun', docs, cfg('SpecDocs', 'docs'), heap='12g')
    check.add_tlc(res, name)
    cases = [dict(dict(doc=d, exp=r['exp'], salt=f'{check.seed}-{name}{i}', focus=focus, both=False, ends=False), **options)
             for i, (d, r) in enumerate(zip(docs, res['records']))]
    check.run(name, cases, judge_complete, 4)


def some(check, name, count, parts, steps, small=False, big=()):
    """Random documents."""
    rng = check.rng(name)
    docs = [document(rng, parts, rng.choice(steps), small) for _ in range(count)]
    return docs + [document(rng, parts, rng.choice([1, 1, 2]), True, kind) for kind in big]


def check_P14(check):
    deep = check.thorough
    exhaustive(check, 'steps', STEPS, cfg('SpecMC', 'steps', atoms=3 if deep else 2, steps=4 if deep else 3, sc=1))
    large(check, 'large', STEPS, some(check, 'large', 1500 if deep else 250, {'struct': 0.9, 'forces': 0.9, 'energy': 0.9}, [1, 2, 3, 5, 9, 14],
                                      big=['steps', 'atoms', 'atoms']))
    large(check, 'ends', STEPS, some(check, 'ends', 1000 if deep else 250, {}, [1, 2, 3, 5, 11]), ends=True)


def check_P15(check):
    deep = check.thorough
    exhaustive(check, 'steps', ['energies'], cfg('SpecMC', 'steps', atoms=1, steps=4 if deep else 3, sc=3 if deep else 2), ends=False)
    large(check, 'large', ['energies'], some(check, 'large', 1500 if deep else 250, {'energy': 0.8, 'struct': 0.9}, [1, 2, 3, 5, 9, 14], big=['steps', 'steps']))


def check_P16(check):
    deep = check.thorough
    exhaustive(check, 'bands', BANDS, cfg('SpecMC', 'bands', atoms=2, kpts=3 if deep else 2, bands=3 if deep else 2), ends=False)
    large(check, 'large', BANDS, some(check, 'large', 1200 if deep else 150, {'bands': 1, 'sc': [1]}, [1, 1, 2, 3],
                                      big=['atoms', 'kpts', 'bands'] * 2))


def check_P17(check):
    deep = check.thorough
    exhaustive(check, 'dos', DOS, cfg('SpecMC', 'dos', atoms=3 if deep else 2, steps=1), ends=False)
    if deep:
        exhaustive(check, 'dos-steps', DOS, cfg('SpecMC', 'dos', atoms=1, steps=2), ends=False)
    large(check, 'large', DOS, some(check, 'large', 1500 if deep else 250, {'dos': 1, 'sc': [1]}, [1, 1, 2, 3, 5], big=['matrix', 'matrix']))


EVERYTHING = {'bands': 1, 'dos': 1, 'response': 1}


def check_P18(check):
    deep = check.thorough
    for name, parts, steps, small, count in (('everything', EVERYTHING, [1, 2], True, 60 if deep else 12),
                                             ('steps', {}, [1, 2, 3, 5], True, 100 if deep else 15)):
        if not wants(check, name):
            continue
        docs = some(check, name, count, parts, steps, small)
        cuts(check, name, docs, deep)
    # complete files are not truncated, whatever their size and ending
    large(check, 'complete', ['truncated', 'steps'], some(check, 'complete', 600 if deep else 150, {}, [0, 1, 2, 5], True))


def cuts(check, name, docs, deep):
    """Every prefix of every document, cut in several places inside the next token."""
    handle = vp.tempfile.NamedTemporaryFile('w', prefix='vp-docs-', suffix='.ndjson', delete=False)
    with handle:
        for doc in docs:
            handle.write(vp.json.dumps(doc) + '\n')
    try:
        res = vp.tlc('Vasprun', cfg('SpecDocs', 'cut'), env={'DOCS': handle.name}, heap='12g')
    finally:
        vp.os.unlink(handle.name)
    if len(res['records']) != sum(len(d) + 1 for d in docs):
        raise vp.Machinery(f'{len(res["records"])} predictions for {sum(len(d) + 1 for d in docs)} prefixes')
    check.add_tlc(res, name, True)
    recs = sorted(res['records'], key=lambda r: (r['src'], r['pos']))
    cases = [dict(doc=docs[r['src'] - 1], pos=r['pos'], exp=r['exp'], salt=f'{check.seed}-{name}{r["src"]}', cuts=6 if deep else 2,
                  every=deep, ends=True) for r in recs if r['pos'] < len(docs[r['src'] - 1])]
    check.run(name, cases, judge_cut, 8)


def check_P19(check):
    deep = check.thorough
    every = sorted(set(ALL))
    for mode, config, cap in (('steps', cfg('SpecMC', 'steps', atoms=2, steps=2, sc=1), None),
                              ('bands', cfg('SpecMC', 'bands', atoms=2, kpts=2, bands=2 if deep else 1), None),
                              ('dos', cfg('SpecMC', 'dos', atoms=2, steps=1), None),
                              ('resp', cfg('SpecMC', 'resp', atoms=2 if deep else 1, steps=1), None if deep else 600),
                              ('params', cfg('SpecMC', 'params', kpts=2 if deep else 1, steps=0), None if deep else 600)):
        exhaustive(check, mode, every, config, both=True, ends=False, cap=cap)
    large(check, 'large', every, some(check, 'large', 1000 if deep else 120, EVERYTHING, [1, 1, 2, 3], big=['matrix', 'kpts', 'bands']), both=True, sources=True)
    # the blocks in which a file is read end anywhere
    large(check, 'blocks', every, some(check, 'blocks', 300 if deep else 60, EVERYTHING, [1, 2], True) * (20 if deep else 8), both=True,
          boundary=True)


def check_P20(check):
    deep = check.thorough
    rng = check.rng('damages')
    docs = []
    for doc in some(check, 'damaged', 30 if deep else 14, EVERYTHING, [1, 1, 2], True):
        docs += damages(doc, rng)
    large(check, 'damaged', ALL, docs, both=True)
    # damage in places nothing reported is read from, and undamaged files of the same kind
    large(check, 'undamaged', ALL, some(check, 'undamaged', 200 if deep else 40, EVERYTHING, [1, 2], True), both=True)


def check_P21(check):
    deep = check.thorough
    exhaustive(check, 'resp', RESPONSE, cfg('SpecMC', 'resp', atoms=2, steps=1), ends=False, cap=None if deep else 1500)
    exhaustive(check, 'params', RESPONSE, cfg('SpecMC', 'params', kpts=3 if deep else 2, steps=0), ends=False, cap=None if deep else 1500)
    large(check, 'large', RESPONSE, some(check, 'large', 1200 if deep else 200, {'response': 1, 'sc': [1]}, [1, 1, 2, 3],
                                        big=['matrix', 'kpts']))
