"""C13: the context stack and source paths."""
import copy
import json

import pilo
from pilo import ctx
from pilo.source import ConfigSource, DefaultSource, JsonSource, MountSource, SourceError, UnionSource

from .. import gen, spec as S
from ..engine import Violation
from . import c15

PROP = 'C13'
RULE = ('a case is a random sequence of pushes (sources, keys, variables), pops, rewinds, restores, resets and queries on '
        'the context, compared with a model that keeps a list of frames; or a sequence of edits of one source '
        'path; it counts when a query was answered below a key that was pushed after a pop or rewind, or a part that is '
        'not the last was edited; distinct by operation sequence')

VARS = ['x', 'y', 'zed', 'items', 'values', 'keys', 'get', 'copy', 'ignore_default', 'ignore_missing', 'tags', 'pop']
KEYS = ['a', 'b', 'c', 'd', '', 'e', 'a b', 'name']
MISSING = S._Mark('MISSING')


class Src(object):
    """A source and the data it stands for."""

    def __init__(self, d, kind=None):
        self.kind = kind or d.choice(['native', 'native', 'json', 'mount', 'config', 'union'])
        if self.kind == 'mount':
            self.mounts = dict((k, Src2(d, d.choice(['native', 'json', 'config']))) for k in d.sample(['a', 'b', 'm'], d.int(1, 2)))
            self.source = MountSource(**dict((k, s.source) for k, s in self.mounts.items()))
        else:
            inner = Src2(d, self.kind)
            self.inner, self.source = inner, inner.source

    def __repr__(self):
        return '{0}{1}'.format(self.kind, self.mounts if self.kind == 'mount' else self.inner)


class Src2(object):

    def __init__(self, d, kind):
        self.kind = kind
        self.section = None
        if kind == 'config':
            self.config(d)
            return
        if kind == 'union':
            raws = [c15.tree(d, 3, 'root') for _ in range(d.int(1, 3))]
            cfg = c15.Config(d)
            self.data = c15.merge_mappings(raws, 0, cfg, 'combine')
            self.location = None
            self.source = UnionSource(c15.sources(d, raws, own=False), **cfg.kw)
            return
        self.data = gen.json_finite(tree(d, 3))
        if d.p(5):
            self.data = None
        self.location = d.choice([None, None, 'loc', 'file.txt'])
        if kind == 'json':
            self.source = JsonSource(json.dumps(self.data), location=self.location)
        else:
            self.source = DefaultSource(self.data, location=self.location)

    def config(self, d):
        text, self.data = [], {}
        for name in d.sample(['a', 'b', 'm', 'X y'], d.int(1, 3)):
            text.append('[{0}]'.format(name))
            section = self.data[name] = {}
            for key in d.sample(['a', 'b', 'c', 'd', 'e'], d.int(0, 4)):
                if d.p(25):
                    # options of an option
                    section[key] = sub = {}
                    for k in d.sample(KEYS[:4] + ['a-b', 'X'], d.int(1, 2)):
                        section['{0}[{1}]'.format(key, k.lower())] = sub[k.lower()] = self.words(d)
                        text.append('{0}[{1}] = {2}'.format(key, k, indented(sub[k.lower()])))
                else:
                    section[key] = self.words(d)
                    text.append('{0} = {1}'.format(key, indented(section[key])))
        self.location = d.choice([None, None, 'loc', 'file.ini'])
        sections = self.data
        if d.bool():
            self.section = d.choice(sorted(self.data))
            self.data = sections[self.section]
        self.source = ConfigSource('\n'.join(text), section=self.section, location=self.location)

    def words(self, d):
        words = [d.choice(['w', '1', 'text', '2.5', 'True', 'x']) for _ in range(d.int(1, 3))]
        return Words(d.choice([' ', '\n']).join(words))

    def label(self):
        if self.section:
            return [self.location, '[{0}]'.format(self.section)] if self.location else ['[{0}]'.format(self.section)]
        return [self.location] if self.location else []

    def __repr__(self):
        return '({0!r} at {1!r})'.format(self.data, self.label())


class Words(str):
    """A config option, which is a sequence as well."""

    def parts(self):
        return self.splitlines() if '\n' in self else self.split(' ')


def indented(text):
    return text.replace('\n', '\n  ')


def tree(d, depth):
    k = d.n(9)
    if depth <= 0 or k < 2:
        return d.choice([None, 0, 1, 'text', '', True, 2.5, False])
    if k < 7:
        return dict((key, tree(d, depth - 1)) for key in d.sample(KEYS, d.int(0, 4)))
    return [tree(d, depth - 1) for _ in range(d.int(0, 3))]


def walk(data, keys):
    for k in keys:
        if isinstance(data, dict):
            data = data.get(k, MISSING)
        elif isinstance(data, Words) and isinstance(k, int):
            parts = data.parts()
            data = Words(parts[k]) if -len(parts) <= k < len(parts) else MISSING
        elif isinstance(data, list) and isinstance(k, int):
            data = data[k] if -len(data) <= k < len(data) else MISSING
        else:
            data = MISSING
        if data is MISSING:
            break
    return data


class Frame(object):

    def __init__(self, variables, src=MISSING, kind=None):
        self.variables, self.src, self.kind = variables, src, kind


class Model(object):

    def __init__(self):
        self.frames = [Frame(dict(ignore_default=False, ignore_missing=False), None, 'none')]

    def path(self):
        """(source, keys) or None."""
        keys = []
        for f in reversed(self.frames):
            if f.kind == 'key':
                keys.insert(0, f.src)
            elif f.kind == 'source':
                return f.src, keys
            elif f.kind == 'none':
                return None
        return None

    def all(self, name):
        return [f.variables[name] for f in self.frames if name in f.variables]


class View(object):
    """What a path should report."""

    def __init__(self, src, keys):
        self.keys = list(keys)
        self.root = False
        kind = (src.mounts[keys[0]] if keys and keys[0] in src.mounts else src).kind if src.kind == 'mount' else src.kind
        self.config = kind == 'config'
        self.union = kind == 'union'
        text = None
        if src.kind == 'mount':
            if not keys:
                self.root = True
                self.value, self.text, self.names = MISSING, '', sorted(src.mounts)
                return
            if keys[0] in src.mounts:
                inner = src.mounts[keys[0]]
                self.value = walk(inner.data, keys[1:])
                rest = S.path_text(keys[1:])
                rest = ':'.join(inner.label() + [rest])
                text = '@{0}:{1}'.format(keys[0], rest) if len(keys) > 1 else '@{0}'.format(keys[0])
            else:
                self.value = MISSING
                text = '@{0}'.format(keys[0]) if len(keys) == 1 else '@{0}:{1}'.format(keys[0], S.path_text(keys[1:]))
        else:
            self.value = walk(src.inner.data, keys)
            text = ':'.join(src.inner.label() + [S.path_text(keys)])
        self.text = text

    def check(self, path, what, where):
        got = want = None
        if what == 'text':
            got, want = str(path), self.text
        elif what == 'keys':
            got, want = ([p.key for p in path.parts], len(path)), (self.keys, len(self.keys))
        elif what == 'name' and self.keys:
            got, want = path.name, self.keys[-1]
        elif what == 'exists':
            got, want = path.exists, self.value is not MISSING or self.root
        elif what == 'null':
            got, want = path.is_null, self.value is None
        elif what == 'value' and not self.root:
            if self.config and isinstance(self.value, dict) or self.union and self.value is not MISSING:
                return
            got, want = path.value, self.value
            if isinstance(want, Words):
                want = str(want)
            if want is MISSING:
                want = pilo.NONE
            elif type(got) is not type(want):
                raise Violation('{0}: value {1!r} instead of {2!r}'.format(where, got, want))
        elif what == 'primitive' and not self.root:
            if self.value is MISSING or self.config and isinstance(self.value, dict) or \
                    self.union and isinstance(self.value, (dict, list)):
                return
            got, want = path.primitive(None), self.value
        elif what == 'text of' and isinstance(self.value, str):
            got, want = path.primitive(Text), self.value
        elif what == 'number of' and type(self.value) in (int, float):
            got, want = shape(lambda: path.primitive(Number)), 'error' if self.value == 2.5 else self.value
        elif what == 'mapping':
            got = shape(lambda: sorted(path.mapping()))
            want = self.names if self.root else sorted(self.value) if isinstance(self.value, dict) else 'error'
        elif what == 'sequence':
            got = shape(path.sequence)
            want = len(self.value) if isinstance(self.value, list) else \
                len(self.value.parts()) if isinstance(self.value, Words) else 'error'
        if got != want:
            raise Violation('{0}: {1} is {2!r} instead of {3!r}'.format(where, what, got, want))


class Text(str):
    pass


class Number(int):
    pass


def shape(fn):
    try:
        return fn()
    except SourceError:
        return 'error'


ASK = ['text', 'keys', 'name', 'exists', 'null', 'value', 'primitive', 'mapping', 'sequence', 'text of', 'number of']


def machine(d):
    m = Model()
    closers = []        # (how to undo in the model, close)
    log = []
    d.note('operations', log)
    kept = []           # copies of paths, and what they reported
    dirty = deep = False
    base = len(ctx.stack)

    def query(where, all_=False):
        p = m.path()
        if p is None:
            if ctx.src_path is not None:
                raise Violation('{0}: there is a source path: {1!r}'.format(where, ctx.src_path))
        else:
            view = View(*p)
            for what in ASK if all_ else d.sample(ASK, d.int(0, 3)):
                view.check(ctx.src_path, what, where)
        for name in VARS if all_ else d.sample(VARS, d.int(0, 2)):
            want = m.all(name)
            if list(ctx.values_for(name)) != want:
                raise Violation('{0}: values of {1} are {2!r} instead of {3!r}'.format(
                    where, name, ctx.values_for(name), want))
            try:
                got = getattr(ctx, name)
            except AttributeError:
                got = MISSING
            if got != (want[-1] if want else MISSING) or type(got) is not type(want[-1] if want else MISSING):
                raise Violation('{0}: {1} is {2!r} instead of {3!r}'.format(where, name, got, want[-1:]))

    def variables():
        return dict((n, d.choice([0, 1, None, False, True, 'v', 7])) for n in d.sample(VARS, d.int(0, 2)))

    for step in range(d.int(1, 30)):
        k = d.n(19)
        where = 'step {0}'.format(step)
        if k < 3:
            vs = variables()
            log.append(('push', vs))
            push = ctx if d.bool() else ctx.push
            c = push(**vs)
            m.frames.append(Frame(vs))
            closers.append(('pop', c))
        elif k < 5:
            vs = variables()
            src = Src(d)
            log.append(('source', src, vs))
            c = ctx(src=src.source, **vs)
            m.frames.append(Frame(vs, src, 'source'))
            closers.append(('pop', c))
        elif k < 11:
            p = m.path()
            if p is None:
                continue
            src, keys = p
            view = View(src, keys)
            options = []
            if isinstance(view.value, dict):
                options = sorted(view.value)
            elif isinstance(view.value, list):
                options = list(range(-len(view.value) - 1, len(view.value) + 1))
            elif isinstance(view.value, Words):
                options = list(range(-len(view.value.parts()) - 1, len(view.value.parts()) + 1))
            elif view.root:
                options = view.names
            if options and d.p(80):
                key = d.choice(options)
            else:
                key = d.choice(KEYS + ['m'])
                if (not isinstance(view.value, str) or isinstance(view.value, Words)) and not view.root and d.bool():
                    key = d.int(-3, 3)
            vs = variables() if d.p(20) else {}
            log.append(('key', key, vs))
            if view.union:
                # which are read before what is below
                shape(ctx.src_path.mapping)
                shape(ctx.src_path.sequence)
            c = ctx(src=key, **vs)
            m.frames.append(Frame(vs, key, 'key'))
            closers.append(('pop', c))
            deep = deep or dirty
        elif k < 14:
            if not closers:
                continue
            kind, c = closers.pop()
            log.append(('undo', kind if kind == 'pop' else 'rewind'))
            if kind == 'pop':
                m.frames.pop()
                how = d.n(3)
                if how == 0:
                    with c:
                        pass
                elif how == 1:
                    try:
                        with c:
                            raise ValueError()
                    except ValueError:
                        pass
                elif how == 2:
                    ctx.restore()
                else:
                    # told not to
                    c.disable = True
                    before = list(ctx.stack)
                    with c:
                        pass
                    if len(ctx.stack) != len(before) or any(a is not b for a, b in zip(ctx.stack, before)):
                        raise Violation('{0}: a disabled close restored'.format(where))
                    ctx.restore()
            else:
                m.frames.extend(kind)
                with c:
                    pass
            dirty = True
        elif k < 16:
            # rewind to some frame
            i = d.n(len(m.frames) - 1)
            log.append(('rewind', i))
            target = ctx.stack[base - 1 + i]
            seen = []

            def stop(frame):
                seen.append(frame)
                return frame is target
            c = ctx.rewind(stop)
            if len(seen) != len(m.frames) - i:
                raise Violation('{0}: rewinding asked {1} frames'.format(where, len(seen)))
            closers.append((m.frames[i + 1:], c))
            del m.frames[i + 1:]
            dirty = True
        elif k < 17:
            log.append(('rewind to nothing',))
            try:
                ctx.rewind(lambda frame: False)
            except ctx.RewindDidNotStop:
                pass
            else:
                raise Violation('{0}: rewound to nothing'.format(where))
        elif k < 18:
            log.append(('reset',))
            c = ctx.reset()
            m.frames.append(Frame({}, None, 'none'))
            closers.append(('pop', c))
        else:
            p = m.path()
            if p is None:
                continue
            log.append(('keep',))
            kept.append((copy.copy(ctx.src_path), View(*p)))
        if len(ctx.stack) != base - 1 + len(m.frames):
            raise Violation('{0}: {1} frames instead of {2}'.format(where, len(ctx.stack), base - 1 + len(m.frames)))
        query(where)
    query('at the end', True)
    for path, view in kept:
        # as errors do
        for what in ('text', 'keys', 'value', 'exists'):
            view.check(path, what, 'kept path')
    while closers:
        kind, c = closers.pop()
        if kind == 'pop':
            m.frames.pop()
        else:
            m.frames.extend(kind)
        with c:
            pass
        query('unwinding')
    query('after unwinding', True)
    if deep:
        d.nontrivial(repr(log))


def edits(d):
    """One path, edited like the list of keys it is."""
    kind = d.choice(['native', 'json', 'config', 'mount'])
    src = Src(d, kind)
    path, keys = src.source.path(), []
    log = []
    d.note('source', src)
    d.note('operations', log)

    def key():
        at = View(src, keys[:d.n(len(keys))])
        if at.root and d.p(85):
            return d.choice(at.names)
        value = at.value
        if isinstance(value, dict) and value and d.p(85):
            return d.choice(sorted(value))
        if isinstance(value, list) and value and d.p(85):
            return d.n(len(value) - 1)
        return d.choice(KEYS + [0, 1, 0, 1, 1.0])

    late = False
    for step in range(d.int(2, 14)):
        k = d.n(11)
        n = len(keys)
        i = d.int(-n, n - 1) if n else 0
        if k < 4 or not n:
            x = key()
            log.append(('append', x))
            path.append(x)
            keys.append(x)
        elif k < 6:
            x = key()
            log.append(('set', i, x))
            path[i] = x
            keys[i] = x
            late = late or i not in (-1, n - 1)
        elif k < 7:
            i = d.int(-n - 1, n + 1)
            x = key()
            log.append(('insert', i, x))
            path.insert(i, x)
            keys.insert(i, x)
            late = late or i != n
        elif k < 8:
            log.append(('delete', i))
            if kind == 'mount' and i in (0, -n) and n > 1:
                # a mount point is not to be deleted
                try:
                    del path[i]
                except TypeError:
                    continue
                raise Violation('deleted the mount point')
            del path[i]
            del keys[i]
            late = late or i not in (-1, n - 1)
        elif k < 9:
            log.append(('pop',))
            got = path.pop()
            if got.key != keys.pop():
                raise Violation('popped {0!r}'.format(got.key))
        elif k < 10:
            x = [key() for _ in range(d.int(0, 2))]
            log.append(('extend', x))
            path.extend(x)
            keys.extend(x)
        elif k < 11:
            log.append(('copy',))
            path = copy.copy(path)
        else:
            for bad in (n, -n - 1):
                try:
                    del path[bad]
                except IndexError:
                    continue
                raise Violation('deleted part {0} of {1}'.format(bad, n))
        if any(isinstance(x, int) and isinstance(View(src, keys[:j]).value, str) for j, x in enumerate(keys)) \
                and kind != 'config':
            # text is indexable
            return
        view = View(src, keys)
        for what in d.sample(ASK, d.int(0, 3)):
            view.check(path, what, 'step {0}'.format(step))
    for what in ASK:
        View(src, keys).check(path, what, 'at the end')
    if late:
        d.nontrivial((repr(src), repr(log)))


TESTS = [
    ('machine', machine, 12000, 250000),
    ('edits', edits, 6000, 120000),
]
