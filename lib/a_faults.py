"""P34: devices that fail part-way and interruptions. Specification: Faults.tla."""
import gzip
import io
import os
import random
import resource
import sys

import vp

from a_sources import READERS, WRITERS, Opened, Subject

CODE = os.path.join(vp.REPO, 'parsevasp') + os.sep
BLOCKS = 3


class Broken(Exception):
    """A failure of some other kind of device."""


class Device(io.RawIOBase):
    """Bytes that arrive in pieces, until the device fails, for a moment or for good."""
    once = False
    left = None

    def __init__(self, data, piece, offset, exc):
        super().__init__()
        self.data, self.piece, self.offset, self.exc, self.at = data, piece, offset, exc, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.at = max(0, {0: 0, 1: self.at, 2: len(self.data)}[whence] + offset)
        return self.at

    def tell(self):
        return self.at

    def readinto(self, room):
        size = max(0, min(len(room), self.piece, len(self.data) - self.at))
        if self.offset is not None:
            size = min(size, self.offset - self.at) if self.at < self.offset else 0
            if size == 0 and len(room):
                if self.once:
                    self.offset = None
                raise self.exc
        if self.left is not None:
            # it fails after so many bytes, wherever they are
            size = min(size, self.left)
            if size == 0 and len(room) and self.at < len(self.data):
                self.left = None if self.once else 0
                raise self.exc
            self.left -= size
        room[:size] = self.data[self.at:self.at + size]
        self.at += size
        return size


class Target(io.StringIO):
    """Takes so many characters, and no more for a moment or for good."""
    room = None
    exc = None
    once = False

    def write(self, text):
        if self.room is not None and len(text) > self.room:
            super().write(text[:self.room])
            self.room = None if self.once else 0
            raise self.exc
        if self.room is not None:
            self.room -= len(text)
        return super().write(text)


def failure(rng):
    return rng.choice([OSError(5, 'Input/output error'), KeyboardInterrupt(), MemoryError(), EOFError('ended'), TimeoutError('late'), Broken('broken'),
                       ConnectionResetError(104, 'reset')])


def run(func):
    """What becomes of a call: ('ok', value) or ('raised', exception)."""
    err, out = sys.stderr, sys.stdout
    sys.stderr = sys.stdout = io.StringIO()
    try:
        return 'ok', func()
    except BaseException as exc:  # pylint: disable=broad-except
        if isinstance(exc, vp.Hang):
            raise
        exc.__traceback__ = None
        return 'raised', exc
    finally:
        sys.stderr, sys.stdout = err, out


def stopped(func, at):
    """Run func and interrupt it at one of the lines of the code under test; the number of lines with at = 0."""
    count = [0]

    def tracer(frame, event, arg):  # pylint: disable=unused-argument
        return line if frame.f_code.co_filename.startswith(CODE) else None

    def line(frame, event, arg):  # pylint: disable=unused-argument
        if event == 'line':
            count[0] += 1
            if count[0] == at:
                raise KeyboardInterrupt('stop')
        return line

    def traced():
        sys.settrace(tracer)
        try:
            return func()
        finally:
            sys.settrace(None)
    return run(traced), count[0]


def descriptors():
    return len(os.listdir('/proc/self/fd'))


class Limited:
    """Files can not become longer than this."""

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, self.old[1]))

    def __exit__(self, *exc):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class Reading:
    """A source that fails, or not, in one of its blocks."""

    def __init__(self, sub, rng, way, text, fail):
        self.xml = sub.base == 'xml'
        self.data = text.encode('utf8')
        self.arg, self.handle, self.device, self.want = None, None, None, ()
        size = len(self.data)
        low = max(1, (fail - 1) * size // BLOCKS)
        offset = rng.randint(low, max(low, fail * size // BLOCKS - 1)) if fail else None
        if way == 'path' or (way == 'handle' and fail and not self.xml and rng.random() < 0.25):
            data = self.data
            if fail:
                # letters that are none in this encoding
                self.want = UnicodeDecodeError
                while data[offset] & 0xc0 == 0x80:
                    offset -= 1
                data = data[:offset] + rng.choice([b'\xff', b'\xc3(', b'\xe9']) + data[offset:]
            with open('source', 'wb') as out:
                out.write(data)
            if way == 'path':
                self.arg = {'file_path': 'source'}
                return
            self.repair = self.data
            self.handle = open('source', 'r', encoding='utf8')
        elif way == 'handle' and rng.random() < 0.15:
            packed = gzip.compress(self.data, rng.choice([0, 1, 9]), mtime=0)
            self.repair = packed
            if fail:
                packed = packed[:max(12, min(len(packed) - 9, len(packed) * fail // BLOCKS))]
                self.want = EOFError
            with open('source', 'wb') as out:
                out.write(packed)
            self.handle = gzip.open('source', 'rb' if self.xml else 'rt', **({} if self.xml else {'encoding': 'utf8'}))
        else:
            exc = failure(rng)
            self.want = exc
            self.device = Device(self.data, rng.choice([1, 3, 17, 100, 1000, 10**6]), offset if way != 'stop' else None, exc)
            self.device.once = rng.random() < 0.5
            if self.device.offset is not None and rng.random() < 0.5:
                self.device.left, self.device.offset = offset + rng.choice([0, min(1024, size)] if self.xml else [0]), None
            self.handle = io.BufferedReader(self.device, rng.choice([16, 512, 8192]))
            if not self.xml or rng.random() < 0.5:
                self.handle = io.TextIOWrapper(self.handle, encoding='utf8')
        self.arg = {'file_handler': self.handle}

    def is_it(self, exc):
        return isinstance(exc, self.want) if isinstance(self.want, type) else exc is self.want

    def mend(self):
        """The fault is over: rewind the handle, which must not be closed."""
        if self.device is not None:
            self.device.offset = self.device.left = None
        else:
            with open('source', 'r+b') as out:
                out.write(self.repair)
                out.truncate()
        self.handle.seek(0)


def judge(case):
    rng = random.Random(case['salt'])
    sub = Subject(case['kind'], rng)
    sub.reference()
    for name in os.listdir('.'):
        os.unlink(name)
    disk = 'before\n' * 3
    with open('p', 'w', encoding='utf8') as out:
        out.write(disk)
    target, written = Target(), ''
    objs, held, last = [None, None], [None, None], None
    open_handles = []
    note = [case['kind'], str(sub.options)]

    def bad(text):
        return {'bad': text, 'input': '\n'.join(note) + '\n\ntext a:\n' + sub.texts['a'][:800] + '\ntext b:\n' + sub.texts['b'][:800]}

    def make(arg):
        return sub.cls(**arg, **sub.options)

    for number, (step, exp) in enumerate(zip(case['doc'], case['exp'])):
        note.append(str({k: v for k, v in step.items() if v != '-'}))
        k, o, fail = step['k'], step['o'] - 1, step['fail']
        want = None
        if k == 'make':
            reading = Reading(sub, rng, step['way'], sub.texts[step['c']], fail)
            if reading.handle is not None:
                open_handles.append(reading.handle)
            before = descriptors()
            # what fails in an XML file is not the decoding
            damaged = step['way'] == 'path' and fail and reading.xml
            if damaged:
                reading.want = BaseException
            with Opened() as opened:
                if step['way'] == 'stop':
                    _, total = stopped(lambda: make(reading.arg), 0)
                    reading.handle.seek(0)
                    low = total * (fail - 1) // BLOCKS
                    res, _ = stopped(lambda: make(reading.arg), rng.randint(low + 1, max(low + 1, total * fail // BLOCKS)))
                    reading.want = KeyboardInterrupt
                else:
                    res = run(lambda: make(reading.arg))
            if step['way'] != 'stop' and [f for f in opened.files if not f.closed]:
                return bad('a file read was left open')
            del opened
            if descriptors() != before:
                return bad('a descriptor was left open')
            if reading.handle is not None and reading.handle.closed:
                return bad('the handle read was closed')
            if step['way'] == 'handle':
                last = reading
            if res[0] == 'raised' and exp['out'] == 'raised' and not reading.is_it(res[1]):
                return bad(f'{type(res[1]).__name__} {res[1]} instead of {reading.want!r}')
            if res[0] == 'ok' and fail:
                # more of the content is not needed, or the object is none
                diff = vp.deep(sub.want[step['c']], sub.observe(res[1]))
                if diff and not (damaged and sub.kind.startswith('xml')):
                    return bad(f'an object was made of a part: {diff}')
                return {'traces': 0, 'nontrivial': False}
            if res[0] == 'ok':
                objs[o] = res[1]
        elif k == 'again':
            last.mend()
            res = run(lambda: make(last.arg))
            if res[0] == 'ok':
                objs[o] = res[1]
        elif k == 'write':
            text = sub.canonical[held[o]]
            room = None
            if fail:
                low = (fail - 1) * len(text) // BLOCKS
                room = rng.randint(low, max(low, fail * len(text) // BLOCKS - 1))
            before = descriptors()
            if step['way'] == 'handle':
                target.room, target.exc, target.once = room, failure(rng), rng.random() < 0.5
                want = target.exc
                res = run(lambda: objs[o].write(file_handler=target))
                target.room = None
            else:
                want = OSError
                path = 'p' if step['way'] == 'path' else '/dev/full'
                if room is not None and step['way'] == 'path':
                    room = min(room, len(text.encode('utf8')) - 1)
                with Opened() as opened:
                    if fail and step['way'] == 'path':
                        with Limited(room):
                            res = run(lambda: objs[o].write(file_path=path))
                    else:
                        res = run(lambda: objs[o].write(file_path=path))
                if [f for f in opened.files if not f.closed]:
                    return bad('a file written was left open')
                del opened
            if descriptors() != before:
                return bad('a descriptor was left open')
            if target.closed:
                return bad('the handle written to was closed')
            if res[0] == 'raised' and fail and not (isinstance(res[1], want) if isinstance(want, type) else res[1] is want):
                return bad(f'{type(res[1]).__name__} {res[1]} instead of {want!r}')
            # what has been written
            with open('p', encoding='utf8', newline='', errors='surrogateescape') as handle:
                now = handle.read()
            if step['way'] == 'path':
                if fail and not (now == disk or text.encode('utf8').startswith(now.encode('utf8', 'surrogateescape'))):
                    return bad(f'the file holds {now[-300:]!r}, of {text[-300:]!r}')
                if not fail and now != text:
                    return bad(f'the file holds {now[-300:]!r}, expected {text[-300:]!r}')
                disk = now
            if step['way'] == 'handle':
                got = target.getvalue()
                if not got.startswith(written) or not text.startswith(got[len(written):]) or (not fail and got != written + text):
                    return bad(f'the handle got {got[len(written):]!r}, of {text!r}')
                written = got
        else:
            if fail:
                fresh = sub.make('handle', sub.texts[held[o]])
                _, total = stopped(lambda: sub.observe(fresh), 0)
                low = total * (fail - 1) // BLOCKS
                # what is observed catches nothing that stops it
                at = rng.randint(low + 1, max(low + 1, total * fail // BLOCKS))
                stopped(lambda: sub.observe(objs[o]), at)
                res = ('raised', None)
            else:
                res = run(lambda: sub.observe(objs[o]))
        if res[0] != exp['out']:
            return bad(f'step {number + 1}: {res[0]} {res[1]!r}, expected {exp["out"]}')
        # what has become of everything
        with open('p', encoding='utf8', newline='', errors='surrogateescape') as handle:
            if handle.read() != disk:
                return bad('the file was changed')
        if target.getvalue() != written:
            return bad('the handle was written to')
        if set(os.listdir('.')) - {'p', 'source', 'given'}:
            return bad(f'files {sorted(os.listdir("."))}')
        for which, content in enumerate(exp['objs']):
            held[which] = None if content == 'none' else content
            if held[which] is not None:
                diff = vp.deep(sub.want[content], sub.observe(objs[which]))
                if diff:
                    return bad(f'object {which + 1} should hold {content}: {diff}')
        if exp['disk'] and len(exp['disk']) == BLOCKS and exp['disk'][0][0] in sub.canonical and disk != sub.canonical[exp['disk'][0][0]]:
            return bad(f'the file should hold {exp["disk"][0][0]}')
    for handle in open_handles:
        handle.close()
    return {'input': '\n'.join(note)}


def cfg(spec, length):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n  MaxOps = {length}\n  Blocks = {BLOCKS}\n  MCClasses = {{"writer", "reader"}}\n'


def random_history(rng):
    cls = rng.choice(['writer', 'reader'])
    ops = []
    fails = lambda: rng.choice([0, 0] + list(range(1, BLOCKS + 1)))  # noqa: E731
    for i in range(rng.choice([6, 10, 16])):
        o = rng.choice([1, 2])
        k = rng.choice(['make', 'make', 'again', 'write', 'write', 'write', 'look'] if i > 1 else ['make'])
        way = {'make': rng.choice(['path', 'handle', 'handle', 'stop']), 'again': 'handle', 'write': rng.choice(['path', 'handle', 'full']), 'look': '-'}[k]
        ops.append({'k': k, 'o': o, 'way': way, 'c': rng.choice('ab') if k == 'make' else '-',
                    'fail': 1 if way == 'full' else 0 if k == 'again' else rng.randint(1, BLOCKS) if way == 'stop' else fails()})
    return {'cls': cls, 'ops': ops}


def check_P34(check):
    deep = check.thorough
    rng = check.rng('kinds')
    for name, length, most in (('pairs', 2, None if deep else 1500), ('triples', 3, 12000 if deep else 1200)):
        if check.replay is not None and check.replay.get('group') != name:
            continue
        res = vp.tlc('Faults', cfg('SpecMC', length))
        recs = sorted(res['records'], key=lambda r: str(r['doc']))
        check.add_tlc(res, name, most is None or len(recs) <= most)
        if most is not None and len(recs) > most:
            recs = rng.sample(recs, most)
        cases = []
        for i, rec in enumerate(recs):
            kinds = WRITERS if rec['cls'] == 'writer' else READERS
            cases += [dict(kind=kind, doc=rec['doc'], exp=rec['exp'], salt=f'{check.seed}-{name}{i}')
                      for kind in (kinds if deep and length == 2 else [kinds[i % len(kinds)]])]
        check.run(name, cases, judge)
    rng = check.rng('histories')
    docs = [random_history(rng) for _ in range(4000 if deep else 500)]
    res = vp.tlc_docs('Faults', docs, cfg('SpecDocs', 0))
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(kind=rng.choice(WRITERS if r['cls'] == 'writer' else READERS), doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-h{i}')
                            for i, r in enumerate(res['records'])], judge)
