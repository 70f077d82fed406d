"""P31: objects used by several threads at once. Specification: Threads.tla.

The schedule is the one of the specification: a thread runs only in its own slices of time. Inside an operation the
slices end at lines of the code under test that are drawn from all the lines the operation executes."""
import io
import os
import random
import sys
import threading

import vp

from a_sources import READERS, WRITERS, Subject

CODE = os.path.join(vp.REPO, 'parsevasp') + os.sep
SLICES = 3
LONG = 20


def run_op(sub, state, op, number):
    """One operation of a program; state holds the object, the target and what was seen."""
    verb, _, what = op.partition(' ')
    if verb == 'make':
        state['obj'] = sub.cls(file_handler=io.StringIO(sub.texts[what]), **sub.options)
    elif verb == 'open':
        state['obj'] = sub.cls(file_path=f'{what}{number}', **sub.options)
    elif verb == 'edit':
        sub.edit(state['obj'])
    elif verb == 'write':
        state['obj'].write(file_handler=state['target'])
    elif verb == 'see':
        state['seen'].append(sub.observe(state['obj']))
    elif verb == 'refused':
        try:
            sub.cls(file_path=f'a{number}', file_handler=io.StringIO(sub.texts['a']), **sub.options)
        except SystemExit as exc:
            if exc.code not in (10, 510):
                raise
            return
        raise AssertionError('two sources were accepted')


class Stepper(threading.Thread):
    """A thread that runs its program slice by slice."""

    def __init__(self, number, sub, prog, cuts):
        super().__init__(daemon=True)
        self.number, self.sub, self.prog, self.cuts = number, sub, prog, cuts
        self.state = {'obj': None, 'target': io.StringIO(), 'seen': []}
        self.turn, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.failed = None
        self.lines = self.done = 0
        self.mine = ()

    def pause(self):
        self.back.release()
        self.turn.acquire()

    def tracer(self, frame, event, arg):  # pylint: disable=unused-argument
        return self.line if frame.f_code.co_filename.startswith(CODE) else None

    def line(self, frame, event, arg):  # pylint: disable=unused-argument
        if event == 'line':
            self.lines += 1
            while self.done < len(self.mine) and self.lines >= self.mine[self.done]:
                self.done += 1
                self.pause()
        return self.line

    def run(self):
        self.turn.acquire()
        for index, op in enumerate(self.prog):
            self.lines, self.done, self.mine = 0, 0, self.cuts[index]
            sys.settrace(self.tracer)
            try:
                run_op(self.sub, self.state, op, self.number)
            except BaseException as exc:  # pylint: disable=broad-except
                self.failed = f'{op}: {type(exc).__name__} {exc}'
            finally:
                sys.settrace(None)
            while self.done < len(self.mine):
                self.done += 1
                self.pause()
            self.back.release()
            if index + 1 < len(self.prog):
                self.turn.acquire()


def counted(sub, prog, number):
    """How many lines of the code each operation of a program takes when it is alone."""
    lonely = Stepper(number, sub, prog, [()] * len(prog))
    counts = []
    for op in prog:
        lonely.lines = 0
        sys.settrace(lonely.tracer)
        try:
            run_op(sub, lonely.state, op, number)
        finally:
            sys.settrace(None)
        counts.append(lonely.lines)
    return counts


def judge(case):
    rng = random.Random(case['salt'])
    kept = (sys.stdout, sys.stderr)
    try:
        return schedule(case, rng)
    finally:
        sys.settrace(None)
        sys.stdout, sys.stderr = kept


def schedule(case, rng):
    threads, note = [], []
    for number, (kind, prog) in enumerate(zip(case['kinds'], case['progs']), 1):
        sub = Subject(kind, rng)
        sub.style = rng.choice(['entry', 'place'])
        sub.reference()
        for content in 'ab':
            with open(f'{content}{number}', 'w', encoding='utf8') as out:
                out.write(sub.texts[content])
        counts = counted(sub, prog, number)
        cuts = [sorted(rng.randint(1, max(count, 1)) for _ in range(SLICES - 1)) for count in counts]
        threads.append(Stepper(number, sub, prog, cuts))
        note.append(f'{number}: {kind} {prog}, stopped at {cuts} of {counts} lines')
    note.append(f'schedule {case["sched"]}')
    for thread in threads:
        thread.start()
    for number in case['sched']:
        thread = threads[number - 1]
        thread.turn.release()
        # a thread that waits for what another one holds gets on when that one lets go
        thread.back.acquire(timeout=LONG)
    for thread in threads:
        thread.join(timeout=LONG)

    def bad(text):
        return {'bad': text, 'input': '\n'.join(note) + ''.join(f'\n\n{t.number} text a:\n{t.sub.texts["a"][:700]}' for t in threads)}

    for thread, seen, target, steps in zip(threads, case['seen'], case['target'], case['pc']):
        if thread.failed:
            return bad(f'thread {thread.number} failed, alone it does not: {thread.failed}')
        sub = thread.sub
        if len(thread.state['seen']) != len(seen):
            return bad(f'thread {thread.number}: {len(thread.state["seen"])} observations after {steps - 1} operations, expected {len(seen)}')
        for index, (content, got) in enumerate(zip(seen, thread.state['seen'])):
            diff = vp.deep(sub.want[content], got)
            if diff:
                return bad(f'thread {thread.number}, observation {index + 1} of {content}: {diff}')
        text = thread.state['target'].getvalue()
        want = ''.join(sub.canonical[c] for c in target)
        if text != want:
            return bad(f'thread {thread.number} wrote {text[-500:]!r}, expected {want[-500:]!r}')
    return {'input': '\n'.join(note)}


def check_P31(check):
    deep = check.thorough
    rng = check.rng('threads')

    def explore(name, programs, kinds, cap):
        """Every schedule of two threads with these programs."""
        if check.replay is not None and check.replay.get('group') != name:
            return
        res = vp.tlc('Threads', f'SPECIFICATION SpecMC\nINVARIANTS Meaning Emit\nCONSTANTS\n  Slices = {SLICES}\n  MCThreads = 2\n  MCPrograms <- {programs}\n')
        check.add_tlc(res, name, True)
        recs = sorted(res['records'], key=lambda r: (str(r['progs']), r['sched']))
        recs = recs if len(recs) <= cap else rng.sample(recs, cap)
        cases = []
        for i, rec in enumerate(recs):
            first = kinds[i % len(kinds)]
            same = [k for k in kinds if k.split('-')[0] == first.split('-')[0]]
            second = rng.choice(same) if rng.random() < 0.7 else rng.choice(kinds)
            cases.append(dict(rec, kinds=[first, second], salt=f'{check.seed}-{name}-{i}'))
        check.run(name, cases, judge)

    explore('reading', 'Reading', READERS + WRITERS, 8000 if deep else 900)
    explore('editing', 'Editing', WRITERS, 12000 if deep else 900)
    docs = []
    for _ in range(4000 if deep else 300):
        writer = rng.random() < 0.5
        count = rng.choice([2, 3, 3, 4])
        progs = []
        for _ in range(count):
            prog = [rng.choice(['make a', 'make b', 'open a', 'open b'])]
            prog += [rng.choice(['see', 'make b', 'open a', 'see', 'refused'] + (['edit', 'write', 'edit', 'write'] if writer else []))
                     for _ in range(rng.choice([1, 2, 4]))]
            progs.append(prog + ['see'])
        sched = [t for t in range(1, count + 1) for _ in range(SLICES * len(progs[t - 1]))]
        if rng.random() < 0.8:
            rng.shuffle(sched)
        else:
            # long slices
            sched = [t for _ in range(6 * len(sched)) for t in [rng.randint(1, count)] * rng.randint(1, 4)] + sched
        docs.append({'progs': progs, 'sched': sched, 'writer': writer})
    res = vp.tlc_docs('Threads', docs, 'SPECIFICATION SpecDocs\nINVARIANTS Meaning Emit\nCONSTANTS\n'
                      f'  Slices = {SLICES}\n  MCThreads = 0\n  MCPrograms = {{}}\n')
    check.add_tlc(res, 'schedules')
    cases = []
    for i, rec in enumerate(res['records']):
        kinds = WRITERS if docs[rec['src'] - 1]['writer'] else READERS + WRITERS
        first = rng.choice(kinds)
        same = [k for k in kinds if k.split('-')[0] == first.split('-')[0]]
        cases.append(dict(rec, kinds=[first] + [rng.choice(same) if rng.random() < 0.7 else rng.choice(kinds) for _ in rec['progs'][1:]],
                          salt=f'{check.seed}-schedules-{i}'))
    check.run('schedules', cases, judge)
