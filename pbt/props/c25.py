"""C25: code fields."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import types

import pilo
from pilo import fields as pf

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C25'
RULE = ('a case writes a tree of modules (packages, faulty modules, dotted attributes) into a scratch folder, or a small '
        'program, valid or faulty, and maps code fields over references and programs; results are compared with the objects '
        'and definitions that were written; it counts when something was loaded or refused; distinct by (tree, texts)')

ATTRS = ['value', 'func', 'Cls', 'inst', 'name', 'table', '_hidden', 'x1', 'NONE', 'items']
MODS = ['core', 'util', 'sub', 'm1', 'fields', 'data_']
COUNT = [0]


class Writer(object):
    """A module tree, and what its attributes are."""

    def __init__(self, d, base):
        self.d = d
        COUNT[0] += 1
        self.root = 'vpc_{0}_{1}'.format(os.getpid(), COUNT[0])
        self.base = base
        self.mods = {}      # name: {dotted attribute: marker} or None (faulty)
        self.serial = 1000
        self.source = {}
        self.package(self.root, d.int(1, 3))
        for name in self.mods:
            path = os.path.join(base, *name.split('.'))
            if name in self.packages:
                os.makedirs(path, exist_ok=True)
                path = os.path.join(path, '__init__')
            with open(path + '.py', 'w') as fo:
                fo.write(self.source[name])

    packages = ()

    def mark(self):
        self.serial += 1
        return self.serial

    def package(self, name, depth):
        d = self.d
        self.packages = tuple(self.packages) + (name,)
        self.module(name, faults=name != self.root)
        kids = d.sample(MODS, d.int(1, 3))
        for k in kids:
            if depth > 1 and d.p(50):
                self.package(name + '.' + k, depth - 1)
            else:
                self.module(name + '.' + k)

    def module(self, name, faults=True):
        d = self.d
        lines, attrs = [], {}
        for a in d.sample(ATTRS, d.int(1, 4)):
            k = d.n(5)
            n = self.mark()
            if k == 5:
                v = d.choice([None, 0, '', False])
                lines.append('{0} = {1!r}'.format(a, v))
                attrs[a] = ('plain', v)
            elif k == 0:
                lines.append('{0} = {1}'.format(a, n))
                attrs[a] = n
            elif k == 1:
                lines.append('def {0}():\n    return {1}'.format(a, n))
                attrs[a] = ('call', n)
            elif k == 2:
                m = self.mark()
                lines.append('class {0}(object):\n    mark = {1}\n    class Inner(object):\n        deep = {2}'.format(a, n, m))
                attrs[a] = ('mark', n)
                attrs[a + '.mark'] = n
                attrs[a + '.Inner.deep'] = m
            elif k == 3:
                lines.append('class _T{1}(object):\n    pass\n{0} = _T{1}()\n{0}.mark = {1}'.format(a, n))
                attrs[a] = ('mark', n)
                attrs[a + '.mark'] = n
            else:
                lines.append('{0} = [{1}]'.format(a, n))
                attrs[a] = [n]
        fault = d.n(11) if faults else 0
        if fault == 11:
            lines.insert(d.n(len(lines)), d.choice(['def (:', 'raise ValueError("no")', 'import nothing_like_this_', '1 / 0',
                                                    'undefined_name', 'raise Exception()', 'x = ', 'raise KeyError("k")']))
            attrs = None
        self.mods[name] = attrs
        self.source[name] = '\n'.join(lines) + '\n'

    def reachable(self, name):
        """A module loads if it and its packages do."""
        parts = name.split('.')
        return all(self.mods.get('.'.join(parts[:i + 1])) is not None for i in range(len(parts)))

    def find(self, name, attr):
        """The marker, or None."""
        if name not in self.mods or not self.reachable(name):
            return None
        return self.mods[name].get(attr)

    def remove(self):
        for name in list(sys.modules):
            if name == self.root or name.startswith(self.root + '.'):
                del sys.modules[name]


def is_marked(got, mark):
    if isinstance(mark, tuple) and mark[0] == 'plain':
        return got is mark[1] or type(got) is type(mark[1]) and got == mark[1]
    if isinstance(mark, tuple) and mark[0] == 'call':
        return callable(got) and not isinstance(got, type) and got() == mark[1]
    if isinstance(mark, tuple):
        return getattr(got, 'mark', None) == mark[1]
    return type(got) is type(mark) and got == mark


def draw_reference(d, w):
    """(text, marker or None)"""
    name = d.choice(sorted(w.mods))
    attrs = w.mods[name]
    known = [a for m in w.mods.values() if m for a in m]
    k = d.n(11)
    if k < 6 and attrs:
        attr = d.choice(sorted(attrs))
    elif k < 8 and known:
        attr = d.choice(sorted(known))
    elif k < 9:
        attr = d.choice(['nothing', 'value.nothing', 'Cls.Inner.nothing', '__nope__'])
    else:
        good = (d.choice(sorted(attrs)) if attrs else 'value')
        text = d.choice([
            name + '.missing:' + good, 'missing_' + name + ':' + good, '.' + name + ':' + good, name + '.:' + good,
            name + '..:' + good, name + ':' + good + '.', name + ':.' + good, name + ':' + good + '..mark', ':' + good, good,
            name, name + ':', '', ' ', ' ' + name + ':' + good, name + ': ' + good, name + ' :' + good, name + ':' + good + '()',
            name + ':' + good + ' ', name + ':' + good + ':' + good, name + '::' + good, name + ':' + good + '-x', '!', '(', '1 + 1',
            name + ':' + good + '[0]', name + '/' + good, u'\u00e9:' + good, 'len', 'str', 'sys', 'print', 'pilo', 'os.path', 'True', 'builtins', 'json.loads', good + '.mark', '__name__', name + '.' + good + '.more:mark'])
        return text, None
    return name + ':' + attr, w.find(name, attr)


class Bad(object):
    pass


def draw_program(d):
    """(source, definitions or None if it fails)"""
    lines, defs = [], {}
    serial = [d.int(1, 9) * 1000]
    n = d.int(1, 6)
    names = d.sample(['a', 'b', 'c', 'value', 'x', 'data', 'self', 'path', 'name', 'os_', u'\u00e9t\u00e9'], n)
    for name in names:
        serial[0] += 1
        v = serial[0]
        k = d.n(10)
        if k == 9:
            # calls itself while the block runs
            lines.append('def {0}(n=3):\n    return {0}(n - 1) + 1 if n else {1}\n{0}_ = {0}()'.format(name, v))
            defs[name], defs[name + '_'] = ('fn', v + 3), v + 3
        elif k == 10:
            lines.append('_base{1} = {1}\n{0} = sum([_base{1} + y for y in (1, 2) if _base{1}])'.format(name, v))
            defs[name], defs['_base{0}'.format(v)] = 2 * v + 3, v
        elif k == 8:
            module = d.choice(['pilo.fields', 'pilo.source', 'json', 'fractions'])
            lines.append('from {0} import *'.format(module))
            module = importlib.import_module(module)
            defs.update((x, ('is', getattr(module, x, None))) for x in module.__all__)
        elif k == 0:
            lines.append('{0} = {1}'.format(name, v))
            defs[name] = v
        elif k == 1:
            lines.append('def {0}(k=1):\n    return k + {1}'.format(name, v))
            defs[name] = ('fn', v + 1)
        elif k == 2:
            lines.append('class {0}(object):\n    mark = {1}\n    def get(self):\n        return self.mark'.format(name, v))
            defs[name] = ('cls', v)
        elif k == 3:
            ints = sorted(x for x, y in defs.items() if isinstance(y, int))
            if ints:
                o = d.choice(ints)
                lines.append('{0} = {1} + {2}'.format(name, o, v))
                defs[name] = defs[o] + v
            else:
                lines.append('{0} = "{1}"'.format(name, v))
                defs[name] = str(v)
        elif k == 4:
            # uses a later global
            later = '_later{0}'.format(v)
            lines.append('def {0}():\n    return {1}'.format(name, later))
            lines.append('{0} = {1}'.format(later, v))
            defs[name], defs[later] = ('fn', v), v
        elif k == 5:
            lines.append('{0} = 0\nfor _i in range({1}):\n    {0} += _i'.format(name, v % 7 + 1))
            defs[name], defs['_i'] = sum(range(v % 7 + 1)), v % 7
        elif k == 6:
            lines.append('import collections as {0}'.format(name))
            import collections
            defs[name] = ('is', collections)
        else:
            lines.append('{0} = {1}\ndel {0}'.format(name, v))
    bad = d.n(5) == 5
    if bad:
        lines.insert(d.n(len(lines)), d.choice([
            'def (:', 'raise ValueError("no")', 'import nothing_like_this_', '1 / 0', 'undefined_name_', '   x = 1', 'x = = 1',
            'raise KeyError("k")', 'raise Exception()', '"', '[].pop()', 'return 5', 'raise RuntimeError()', 'assert False',
            'raise StopIteration()', 'int("x")', 'def f():\npass']))
    nl = d.choice(['\n', '\n', '\r\n'])
    text = nl.join('\n'.join(lines).split('\n'))
    if d.bool() or '\n' not in text:
        text += '\n'
    if d.p(20):
        text = '\n' + text
    if d.p(15):
        text = '# ' + d.choice(['core:value', 'a comment', u'\u00e9']) + '\n' + text
    return text, (None if bad else defs)


SYSTEM = set(['__name__', '__doc__', '__package__', '__loader__', '__spec__', '__builtins__', '__file__'])


def check_module(got, defs):
    if not isinstance(got, types.ModuleType):
        raise Violation('{0!r} is not a module'.format(got))
    have = set(got.__dict__) - SYSTEM
    if have != set(defs):
        raise Violation('defines {0!r} instead of {1!r}'.format(sorted(have), sorted(defs)))
    for k, want in defs.items():
        v = got.__dict__[k]
        if isinstance(want, tuple):
            if want[0] == 'fn':
                ok = v() == want[1]
            elif want[0] == 'cls':
                ok = isinstance(v, type) and v.mark == want[1] and v().get() == want[1]
            else:
                ok = v is want[1]
        else:
            ok = type(v) is type(want) and v == want
        if not ok:
            raise Violation('{0} is {1!r} instead of {2!r}'.format(k, v, want))


def world():
    mods = dict(sys.modules)
    state = dict((n, dict(getattr(mods[n], '__dict__', {}))) for n in ('pilo', 'pilo.fields', 'builtins', 'collections', 'sys'))
    state['sys'] = dict((k, v) for k, v in state['sys'].items() if k in ('path', 'modules', 'argv', 'stdout'))
    state['path'] = list(sys.path)
    return mods, state


def unchanged(before, root):
    mods, state = before
    now_mods, now = world()
    new = [n for n in now_mods if n not in mods and n.split('.')[0] != root]
    gone = [n for n in mods if n not in now_mods]
    swapped = [n for n in mods if n in now_mods and now_mods[n] is not mods[n]]
    if new or gone or swapped:
        raise Violation('other modules changed: {0!r} {1!r} {2!r}'.format(new, gone, swapped))
    for n in state:
        if n == 'path':
            if state[n] != now[n]:
                raise Violation('sys.path changed')
            continue
        a, b = state[n], now[n]
        odd = [k for k in set(a) | set(b) if a.get(k) is not b.get(k) and k not in ('_', '__warningregistry__')]
        if odd:
            raise Violation('module {0} changed: {1!r}'.format(n, odd))


def run(d, items, root, check):
    """Maps the texts (with what they should give, or None) through code fields."""
    flavor = d.choice(['native', 'json'])
    shape = d.n(2)
    texts = [t for t, _ in items]
    before = world()
    if shape == 0:
        names = ['f%d' % i for i in range(len(items))]
        cls = type('F', (pilo.Form,), dict((n, pf.Code()) for n in names))
        raw = dict(zip(names, texts))
        form, errors = S.outcome(cls, source_for(d, flavor, raw))
        got = [dict.get(form, n, S.ABSENT) for n in names]
        where = names
    elif shape == 1:
        cls = type('F', (pilo.Form,), {'v': pf.List(pf.Code()), 'z': pf.Integer()})
        form, errors = S.outcome(cls, source_for(d, flavor, {'v': texts, 'z': 1}))
        rest = list(dict.get(form, 'v', []))
        got = [rest.pop(0) if w is not None and rest else S.ABSENT for _, w in items]
        where = ['v[%d]' % i for i in range(len(items))]
        if rest or form.get('z') != 1:
            raise Violation('too many values: {0!r}'.format(form))
    else:
        cls = type('F', (pilo.Form,), {'v': pf.Dict(pf.String(), pf.Code())})
        names = ['k%d' % i for i in range(len(items))]
        form, errors = S.outcome(cls, source_for(d, flavor, {'v': dict(zip(names, texts))}))
        got = [dict.get(form, 'v', {}).get(n, S.ABSENT) for n in names]
        where = ['v.' + n for n in names]
    unchanged(before, root)
    want = [('Invalid', w) for w, (_, x) in zip(where, items) if x is None]
    have = S.error_list(errors)
    if have != want:
        raise Violation('errors {0!r} instead of {1!r}: {2!r}'.format(have, want, [str(e) for e in errors]))
    for g, (t, x) in zip(got, items):
        if x is None:
            if g is not S.ABSENT:
                raise Violation('{0!r} gave {1!r}'.format(t, g))
        elif g is S.ABSENT:
            raise Violation('{0!r} gave nothing'.format(t))
        else:
            check(g, t, x)
    return got


def references(d):
    base = tempfile.mkdtemp(prefix='pilo-c25-')
    w = None
    path = list(sys.path)
    try:
        sys.path.insert(0, base)
        w = Writer(d, base)
        importlib.invalidate_caches()
        d.note('modules', w.source)
        seen = {}
        for _ in range(d.int(1, 2)):
            items = [draw_reference(d, w) for _ in range(d.int(1, 5))]
            d.note('references', items)

            def check(got, text, mark):
                if not is_marked(got, mark):
                    raise Violation('{0!r} gave {1!r} instead of {2!r}'.format(text, got, mark))
                name, attr = text.split(':')
                obj = sys.modules.get(name)
                for part in attr.split('.'):
                    obj = getattr(obj, part)
                if obj is not got:
                    raise Violation('{0!r} gave another object than the module holds'.format(text))
                if seen.setdefault(text, got) is not got:
                    raise Violation('{0!r} gave another object than before'.format(text))
                d.label('loaded')

            run(d, items, w.root, check)
            d.nontrivial((sorted(w.source.values()), [t.replace(w.root, 'R') for t, _ in items]))
    finally:
        sys.path[:] = path
        if w is not None:
            w.remove()
        shutil.rmtree(base)
        importlib.invalidate_caches()


def programs(d):
    items = [draw_program(d) for _ in range(d.int(1, 3))]
    d.note('programs', items)
    got = run(d, items, None, lambda g, t, x: check_module(g, x))
    mods = [g for g in got if g is not S.ABSENT]
    if len(set(map(id, mods))) != len(mods):
        raise Violation('one module for several programs')
    for text, defs in items:
        # with globals given
        if defs is not None:
            check_module(pf.Code.compile('some', text, given_=5), dict(defs, given_=5))
    if any(m in list(sys.modules.values()) for m in mods):
        raise Violation('the module of a program was registered')
    # each stays as it is when another changes
    for i, m in enumerate(mods[:-1]):
        m.__dict__['added'] = 1
        if 'added' in mods[i + 1].__dict__:
            raise Violation('programs share a module')
    d.nontrivial([t for t, _ in items])
    if any(x is None for _, x in items):
        d.label('faulty program')


def natives(d):
    """Values that are not text are passed through."""
    v = d.choice([5, 2.5, True, len, dict, S, {'a': 1}, [1, 2], (1,), object(), None, lambda: 1, 0, False, b'x:y', {}, []])
    cls = type('F', (pilo.Form,), {'f': pf.Code()})
    form, errors = S.outcome(cls, {'f': v})
    if errors or form['f'] is not v:
        raise Violation('{0!r} gave {1!r} {2!r}'.format(v, form, errors))
    d.nontrivial(type(v).__name__)


TESTS = [
    ('references', references, 1500, 15000),
    ('programs', programs, 5000, 40000),
    ('natives', natives, 100, 200),
]
