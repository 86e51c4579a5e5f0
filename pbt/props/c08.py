"""C08: threads do not affect each other."""
import decimal
import json
import locale
import os
import sys
import threading
import warnings

import pilo
from pilo import ctx, fields as pf
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import engine, hooked as H, spec as S
from ..engine import Data, Violation

PROP = 'C08'
RULE = ('a case draws form classes, 2 to 4 threads with tasks over them and a schedule, runs the threads under that '
        'schedule - switching at hook calls, or at any line of the code under test - and each one alone on an identical '
        'set of classes, and compares; it counts when at least one switch happened while a mapping was under way; '
        'distinct by (tasks, schedule taken)')

ROOT = os.path.join(os.path.realpath(engine.REPO), 'pilo') + os.sep


class Sched(object):
    """Runs threads one at a time, switching as drawn."""

    def __init__(self, plan, n):
        self.plan = plan
        self.at = 0
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.left = 0
        self.trace = []
        self.started = threading.Event()

    def next(self):
        k, j = self.plan[self.at % len(self.plan)]
        self.at += 1
        self.left = k
        return self.alive[j % len(self.alive)]

    def step(self, me):
        if self.left > 0:
            self.left -= 1
            return
        n = self.next()
        if n != me:
            self.trace.append(n)
            self.sems[n].release()
            self.wait(me)

    def wait(self, me):
        if not self.sems[me].acquire(timeout=100):
            raise engine.HarnessError('lost baton')

    def done(self, me):
        self.alive.remove(me)
        if self.alive:
            n = self.next()
            self.trace.append(n)
            self.sems[n].release()

    def start(self):
        self.sems[self.next()].release()


class ThreadWorld(H.World):
    """Records what hooks see; yields at hooks."""

    def __init__(self, sched, me, lines):
        super(ThreadWorld, self).__init__()
        self.sched, self.me, self.lines = sched, me, lines

    def tick(self, form, where):
        self.see(form, where, 'before')
        if self.sched is not None and not self.lines:
            self.sched.step(self.me)
        self.see(form, where, 'after')

    def see(self, form, where, when):
        path = ctx.src_path
        self.log.append((
            where, when, getattr(ctx, 'form', None) is form, repr(S.plain(form)), str(path), path is None or path.exists,
            getattr(ctx, 'user1', None), getattr(ctx, 'user2', None), ctx.ignore_missing, ctx.ignore_default,
            type(getattr(ctx, 'field', None)).__name__))


def make_classes(d):
    classes = [H.draw_class(d, depth=2, acts=['none', 'none', 'read', 'inner', 'failing', 'vars'], p=30)[0]
               for _ in range(d.int(1, 2))]
    for cls in classes:
        if d.bool():
            for f in cls.fields:
                if d.p(70):
                    f.tag(*d.sample(['t1', 't2'], d.int(1, 2)))
    base, poly = make_poly(d)
    # sources that the threads share
    pool = []
    for _ in range(2):
        c = d.n(len(classes) - 1)
        raw = H.form_data(d, classes[c], 15)
        pool.append((c, make_source(d, raw, {'other': 1})))
    return classes, base, poly, pool


def make_source(d, raw, other):
    k = d.n(3)
    if k == 0:
        return DefaultSource(raw, location='shared')
    if k == 1:
        return UnionSource([raw, other], merge='combine')
    if k == 2:
        return MountSource(**dict((key, v) for key, v in raw.items() if isinstance(v, dict)))
    return JsonSource(json.dumps(raw))


def make_poly(d):
    base = type('Base', (pilo.Form,), dict(n=pf.Integer(default=1), kind=pf.Type.abstract()))

    def kind_munge(self, value):
        H.world().tick(self, 'kind.munge')
        return value

    base.kind.munge(kind_munge)
    # classes are only known to their base as long as something refers to them
    base.keep = [type('A', (base,), dict(kind=pf.Type.instance('a'), x=pf.Integer())),
                 type('B', (base,), dict(kind=pf.Type.instance('b', 'c'), y=pf.Integer(default=7)))]
    made = {}
    # a format before what it refers to reads it on demand
    for name in d.shuffled(['p', 'q', 'total']):
        made[name] = (pf.PolymorphicSubForm(base.kind) if name == 'p' else
                      pf.Integer(default=5) if name == 'q' else
                      pf.String().format('{a}-{b}-{c}', a='q', b='p.n', c='q'))

    def q_munge(self, value):
        H.world().tick(self, 'q.munge')
        return value

    made['q'].munge(q_munge)
    return base, type('Poly', (pilo.Form,), made)


def draw_task(d, classes, i, kinds=9, fault=15):
    k = 9 - d.n(kinds)
    user = ('u{0}'.format(i), d.int(0, 3)) if d.bool() else None
    flags = dict((n, True) for n in ('ignore_missing', 'ignore_default') if d.p(10))
    if k > 3:
        c = d.n(len(classes) - 1)
        flags['how'] = draw_how(d)
        return ('map', d.choice(['collect', 'raise', 'construct', 'demand', 'json', 'shared', 'shared', 'shared']), c,
                H.form_data(d, classes[c], fault), user, flags)
    return poly_task(d, k > 1, user, flags)


def poly_task(d, cast, user, flags):
    raw = {'kind': d.choice(['a', 'b', 'c', 'a', 'b', 'zz', 3]), 'x': d.choice([1, 'q']), 'n': d.choice([3, None, '8'])}
    if cast:
        return ('cast', None, None, raw, user, flags)
    return ('poly', d.choice(['collect', 'raise', 'json']), None, {'p': raw, 'q': d.int(0, 9)}, user, flags)


def draw_how(d):
    how = {}
    if d.p(30):
        how['tags'] = d.sample(['t1', 't2'], d.int(1, 2))
    if d.p(15):
        how['unmapped'] = d.choice(['capture', 'ignore'])
    return how


def run_task(task, world):
    kind, mode, c, raw, user, flags = task
    classes, base, poly, pool = world
    kw = dict(flags)
    how = kw.pop('how', {})
    if 'tags' in how:
        how = dict(how, tags=list(how['tags']))
    if user:
        kw['user1'] = user[0]
        kw['user2'] = user[1]

    def body():
        if kind == 'cast':
            return base.kind.cast(raw).__name__
        if mode == 'shared':
            at, source = pool[c % len(pool)]
            form = classes[at]()
            errors = form.map(source, **how)
            return repr(S.plain(form)), [(type(e).__name__, str(e), str(e.path)) for e in errors]
        cls = poly if kind == 'poly' else classes[c]
        if mode == 'collect':
            form = cls()
            errors = form.map(raw, **how)
            return repr(S.plain(form)), [(type(e).__name__, str(e), str(e.path)) for e in errors]
        if mode == 'json':
            form = cls()
            errors = form.map(JsonSource(json.dumps(raw)), **how)
            return repr(S.plain(form)), [(type(e).__name__, str(e), str(e.path)) for e in errors]
        if mode == 'raise':
            return repr(S.plain(cls().map(raw, error='raise', **how)))
        if mode == 'construct':
            return repr(S.plain(cls(raw)))
        form = cls()
        return [repr(getattr(form, f.name, None)) for f in cls.fields]

    before = H.look()
    try:
        if kw:
            with ctx(**kw):
                r = body()
        else:
            r = body()
    except Exception as ex:
        r = (type(ex).__name__, str(ex))
    bad = H.unlike(before, H.look())
    if bad:
        r = (r, bad)
    return r


def run_threads(worlds, tasks, sched, lines, once=None):
    """
    tasks: per thread; -> per thread (results, log)

    once: the step at which the first thread gives way, where it does so at no other
    """
    out = [None] * len(tasks)
    errors = []

    def target(me):
        w = ThreadWorld(sched, me, lines)
        H.enter(w)
        try:
            if sched is not None:
                sched.wait(me)
            if once is not None:
                if me == 0:
                    sys.settrace(single(sched, me, once))
            elif sched is not None and lines:
                sys.settrace(tracer(sched, me))
            try:
                results = [run_task(t, worlds) for t in tasks[me]]
            finally:
                sys.settrace(None)
            out[me] = (results, w.log)
        except BaseException as ex:
            errors.append(ex)
        finally:
            if sched is not None:
                sched.done(me)

    threads = [threading.Thread(target=target, args=(i,)) for i in range(len(tasks))]
    for t in threads:
        t.daemon = True
        t.start()
        if sched is None:
            t.join(100)
    if sched is not None:
        sched.start()
        for t in threads:
            t.join(100)
    if errors:
        raise errors[0]
    return out


def tracer(sched, me):
    def line(frame, event, arg):
        if event == 'line':
            sched.frame = frame
            sched.step(me)
        return line

    def call(frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT):
            return line
        return None

    return call


def single(sched, me, k):
    """A tracer that costs nothing any more once it did what it is for."""
    left = [k]

    def line(frame, event, arg):
        if event == 'line':
            if left[0] == 0:
                sys.settrace(None)
                sched.left = 0
                sched.step(me)
            left[0] -= 1
        return line

    def call(frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT):
            return line
        return None

    return call


def process_state():
    c = decimal.getcontext()
    return (list(warnings.filters), warnings.showwarning, sys.getrecursionlimit(), list(sys.path),
            (c.prec, c.rounding, dict(c.traps)), locale.setlocale(locale.LC_ALL), os.getcwd(),
            sorted(os.environ.items()), sys.stdout, sys.stderr, sys.gettrace())


def compare(d, alone, together):
    for i, (a, b) in enumerate(zip(alone, together)):
        if b is None or a is None:
            raise Violation('thread {0} did not end'.format(i))
        if a[0] != b[0]:
            raise Violation('thread {0} got {1!r}, alone it gets {2!r}'.format(i, b[0], a[0]))
        if a[1] != b[1]:
            for x, y in zip(a[1], b[1]):
                if x != y:
                    raise Violation('thread {0}: a hook saw {1!r}, alone it sees {2!r}'.format(i, y, x))
            raise Violation('thread {0}: {1} hook calls, alone {2}'.format(i, len(b[1]), len(a[1])))


def scheduled(d, lines):
    start = len(d.choices)
    worlds = make_classes(d)
    twin = make_classes(Data(prefix=list(d.choices[start:])))
    n = d.int(2, 3 if lines else 4)
    kinds = d.weighted((3, 9), (1, 3))
    tasks = [[draw_task(d, worlds[0], i, kinds) for _ in range(d.int(1, 2))] for i in range(n)]
    if d.p(30):
        tasks[1] = tasks[0]
    longest = 60 if lines else 2
    plan = [(d.weighted((3, d.n(longest)), (1, 0)), d.n(11)) for _ in range(d.int(1, 60))]
    d.note('tasks', tasks)
    d.note('schedule', plan[:20])
    before = process_state()
    sched = Sched(plan, n)
    together = run_threads(worlds, tasks, sched, lines)
    after = process_state()
    if after != before:
        raise Violation('process-wide state changed: {0!r} -> {1!r}'.format(
            [x for x, y in zip(before, after) if x != y], [y for x, y in zip(before, after) if x != y]))
    alone = run_threads(twin, tasks, None, lines)
    compare(d, alone, together)
    d.label('switches: {0}'.format('0' if not sched.trace else '1-9' if len(sched.trace) < 10 else '10 or more'))
    if len(sched.trace) >= n:
        d.nontrivial((repr(tasks), repr(sched.trace)))


def at_hooks(d):
    scheduled(d, False)


def at_lines(d):
    scheduled(d, True)


class Count(object):
    """Stands for a schedule of one thread and notes at which steps it is at each line."""

    def __init__(self):
        self.n = 0
        self.at = {}

    def step(self, me):
        code = self.frame.f_code
        self.at.setdefault((code.co_filename, self.frame.f_lineno), []).append(self.n)
        self.n += 1

    def draw(self, d):
        # as often at lines that are rare as at others
        if not self.n:
            return 0
        return d.choice(d.choice([self.at[k] for k in sorted(self.at)]))

    def wait(self, me):
        pass

    def done(self, me):
        pass

    def start(self):
        pass


FOREVER = 10 ** 9


def preempted(d):
    """One thread stops at one line, and another does all, or some, of its work there."""
    start = len(d.choices)
    worlds = make_classes(d)
    twin = make_classes(Data(prefix=list(d.choices[start:])))
    kinds = d.weighted((3, 9), (1, 3))
    fault = d.choice([5, 15, 40])
    tasks = [[draw_task(d, worlds[0], i, kinds, fault)] for i in range(2)]
    if d.p(60):
        # the other does the same with data of its own
        kind, mode, c, raw, user, flags = tasks[0][0]
        other = H.form_data(d, worlds[0][c], fault) if kind == 'map' else raw
        tasks[1] = [(kind, mode, c, other, ('other', 1) if d.bool() else None, flags)]
    d.note('tasks', tasks)
    alone = run_threads(twin, tasks, None, True)
    lengths = []
    for me in range(2):
        count = Count()
        run_threads(twin, [tasks[me]], count, True)
        lengths.append(count)
    before = process_state()
    runs = 0
    steps = sum(count.n for count in lengths)
    for _ in range(max(5, min(40, 2 * STEPS // max(steps, 1)))):
        first = d.n(1)
        k = lengths[first].draw(d)
        plan = [(k, first)]
        if d.p(30):
            plan += [(lengths[1 - first].draw(d), 1 - first)]
            if d.bool():
                plan += [(d.n(60), first)]
        else:
            plan += [(FOREVER, 1 - first)]
        plan += [(FOREVER, first), (FOREVER, 0)]
        d.note('schedule', plan)
        sched = Sched(plan, 2)
        together = run_threads(worlds, tasks, sched, True)
        compare(d, alone, together)
        runs += len(sched.trace) > 1
    after = process_state()
    if after != before:
        raise Violation('process-wide state changed: {0!r} -> {1!r}'.format(
            [x for x, y in zip(before, after) if x != y], [y for x, y in zip(before, after) if x != y]))
    n = max(count.n for count in lengths)
    d.label('at most {0} lines'.format(500 * (1 + n // 500) if n < 3000 else 'thousands of'))
    if runs:
        d.nontrivial((repr(tasks), len(d.choices), repr(d.choices[-20:])))


SMALL = [
    lambda: pf.Integer(),
    lambda: pf.Integer(default=3),
    lambda: pf.Integer(nullable=False),
    lambda: pf.String(choices=['a', 'b']),
    lambda: pf.String().translate({'1': 'one'}),
    lambda: pf.Bool(default=None),
    lambda: pf.Datetime(format='iso8601'),
    lambda: pf.Date(format='%Y'),
    lambda: pf.Time(format='%H'),
    lambda: pf.Decimal(),
    lambda: pf.UUID(),
    lambda: pf.Number().ignore(1),
    lambda: pf.String().format('{a}!', a='sub.f0'),
    lambda: pf.String().capture('(?P<x>[a1])', 'x'),
]
VALUES = [1, 2, 'a', 'x', '1', None, True, 1.5, [], [1], [1, 'x'], {}, {'f0': 1}, {'f0': 'x'}, {'f1': 1}, '2000', '10',
          '2001-02-03T04:05:06Z', [{'f0': 'x'}, {'f0': 1}], {'a': {'f0': 'x'}}, [2, 'x'], [1, 2]]


def small_class(d, deep):
    ns = {}
    for i in range(d.weighted((4, 1), (2, 2), (1, 3))):
        f = d.choice(SMALL)()
        if d.p(35):
            f = d.choice([pf.List, pf.List, lambda x: pf.Dict(pf.String(), x), lambda x: pf.Tuple([pf.Integer(), x])])(f)
        ns['f%d' % i] = f
    if deep:
        sub = small_class(d, d.p(40) and deep - 1)
        k = d.n(3)
        ns['sub'] = pf.SubForm(sub)
        if k == 1:
            ns['subs'] = pf.List(pf.SubForm(sub))
        elif k == 2:
            ns['keyed'] = pf.Dict(pf.String(), pf.SubForm(sub))
        elif k == 3:
            ns['other'] = pf.SubForm(sub)
    return type('Small', (pilo.Form,), ns)


GOOD = {
    pf.Integer: [1, 2, 3, '7'], pf.Number: [1, 2.5, 3], pf.String: ['a', 'b', '1', 'abc'], pf.Bool: [True, 'f', 'true'],
    pf.Datetime: ['2001-02-03T04:05:06Z', '1999-12-31T23:59:59+01:00'], pf.Date: ['2000', '1999'], pf.Time: ['10', '23'],
    pf.Decimal: ['1.5', 2, '-3'], pf.UUID: ['0' * 32, 'f' * 32],
}


def small_value(d, f):
    if d.p(12):
        return d.choice(VALUES)
    if isinstance(f, pf.SubForm):
        return small_data(d, f.form_type)
    if isinstance(f, pf.List):
        return [small_value(d, f.field) for _ in range(d.int(1, 3))]
    if isinstance(f, pf.Tuple):
        return [small_value(d, x) for x in f.fields]
    if isinstance(f, pf.Dict):
        return dict((k, small_value(d, f.value_field)) for k in d.sample(['k', 'l', 'm'], d.int(1, 2)))
    return d.choice(GOOD[type(f)])


def small_data(d, cls):
    return dict((f.name, small_value(d, f)) for f in cls.fields if not d.p(8))


STEPS = 100000


def small_world(d, kind, deep):
    """(form classes, base, form with a polymorphic field, shared sources)"""
    if kind == 'poly':
        return ([],) + make_poly(d) + ([],)
    cls = small_class(d, deep)
    pool = []
    if kind == 'shared':
        pool.append((0, make_source(d, small_data(d, cls), small_data(d, cls))))
    return [cls], None, None, pool


def every_line(d):
    """Of two threads that map a small form one stops once at every line that it executes, or at many of them."""
    kind = d.weighted((4, 'map'), (1, 'shared'), (1, 'poly'))
    deep = d.choice([0, 1, 1, 1, 2])
    start = len(d.choices)
    world = small_world(d, kind, deep)
    twin = small_world(Data(prefix=list(d.choices[start:])), kind, deep)
    if kind == 'poly':
        tasks = [[poly_task(d, d.p(40), None, {})] for i in range(2)]
    elif kind == 'shared':
        tasks = [[('map', 'shared', 0, None, None, {})] for i in range(2)]
    else:
        mode = d.choice(['collect', 'collect', 'collect', 'raise', 'construct', 'json'])
        tasks = [[('map', mode, 0, small_data(d, world[0][0]), None, {})] for _ in range(2)]
    d.note('forms', [[(f.name, type(f).__name__) for f in cls.fields] for cls in world[0]])
    d.note('tasks', tasks)
    alone = run_threads(twin, tasks, None, True)
    count = Count()
    run_threads(twin, [tasks[0]], count, True)
    # on the average half of the steps are traced
    lines = d.shuffled(sorted(count.at))[:max(2 * STEPS // max(count.n, 1), 10)]
    for line in lines:
        k = d.choice(count.at[line])
        d.notes[:] = [n for n in d.notes if n[0] != 'schedule']
        d.note('schedule', (k, line))
        sched = Sched([(FOREVER, 0), (FOREVER, 1), (FOREVER, 0)], 2)
        compare(d, alone, run_threads(world, tasks, sched, True, k))
    d.label('every line' if len(lines) == len(count.at) else 'half of the lines or more'
            if len(lines) * 2 >= len(count.at) else 'some lines')
    d.label('every line: ' + kind)
    if kind == 'shared' or alone[0] != alone[1]:
        d.nontrivial(repr((tasks, d.choices[:60])))


TESTS = [
    ('at_hooks', at_hooks, 1800, 50000),
    ('at_lines', at_lines, 320, 15000),
    ('preempted', preempted, 24, 2500),
    ('every_line', every_line, 220, 12000),
]
