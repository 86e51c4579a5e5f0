"""C17: configuration sources."""
import configparser
import os
import shlex
import tempfile

import pilo
from pilo import fields as pf
from pilo.source import ConfigSource

from .. import gen, spec as S
from ..engine import Violation

PROP = 'C17'
RULE = ('a case writes the text of a configuration for a generated form (options, sequences as shell words or lines, '
        'name[key] options, defaults, several sections, comments), maps the form from it as text, file or parser object, '
        'one section or all, and compares contents and errors with those the options denote; it counts when at least '
        'three options are present, or one is a sequence or mapping; distinct by (form, text)')

G = S.Gen(flavor='json', depth=2, callables=False, max_fields=4, srcs=False)
SECTIONS = ['main', 'db', 'Web Server', 'x.y', 'S-1', 'logging', 'port', 'k']
OPTIONS = ['name', 'port', 'max-size', 'host.name', 'a_b', 'level', 'x1', 'k', 'verbose', 'path', 'db', 'main', 'x.y',
           'logging']
SUBKEYS = ['a', 'b', 'k1', 'x-y', 'p.q', '0', 'long_key']


def clean(text, first=True):
    """As text of one line of a value."""
    text = ''.join(c for c in text if c.isprintable() and ord(c) < 0x2000).strip()
    if not first:
        text = text.lstrip('#;').strip() or 'x'
    return text


def flat_sequence(v):
    return isinstance(v, list) and not any(isinstance(x, (str, dict, list)) for x in v)


class Writer(object):

    def __init__(self, d, fault, ascii_only):
        self.d, self.fault, self.ascii_only = d, fault, ascii_only

    def scalar_text(self, spec):
        d = self.d
        v = spec.raw(d, self.fault, 'json')
        if isinstance(v, bool):
            v = d.choice(['true', 'false', '0', '1', 'T', 'F', 'True']) if isinstance(spec, S.Bool) else str(v)
        elif v is None:
            v = ''
        elif not isinstance(v, str):
            v = d.choice(['text', '7', 'k = v']) if isinstance(v, (dict, list)) else repr(v)
        v = clean(v)
        if isinstance(spec, (S.Str, S.Any)) and d.p(14):
            # what shells and configuration files make something of
            x = d.choice(['#', '#a', '#1', '# b', '$HOME', '*', '~', '{a}', '%', '%(x)s', '`', '!', '&', '|', '<', '(', '[', '=', ':',
                          '-', '--', "'", 'a#b', ';', '; b', '@', '?', '^', 'a;b', '[x]', '%%', '\\', 'a\\nb'])
            v = d.choice([x, x + v, v + x, v + ' ' + x]).strip()
        if self.ascii_only:
            v = ''.join(c for c in v if ord(c) < 128).strip()
        return v

    def value(self, spec, lines=True):
        """(lines of the value, what it stands for)"""
        d = self.d
        if isinstance(spec, (S.List, S.Tup)):
            if d.p(self.fault // 4) and not getattr(spec, 'allow_field', False):
                return ['say "hello'], 3.5      # an unbalanced quote
            if isinstance(spec, S.List):
                specs = [spec.item] * d.size(0, 5)
            else:
                specs = spec.items
                if d.p(self.fault // 2):
                    specs = specs[1:] if d.bool() else list(specs) + [specs[0]]
            items = [self.value(s, False) for s in specs]
            texts, tree = [x[0][0] for x in items], [x[1] for x in items]
            if lines and d.bool() and all(t and clean(t, False) == t for t in texts) and texts:
                out = [''] if len(texts) == 1 or d.bool() else []
                for t in texts:
                    out.append(t)
                    if d.p(10):
                        out.append('')
                while out[-1] == '':
                    out.pop()
                return out, tree
            return [d.choice([' ', '  ', '\t']).join(self.word(t) for t in texts)], tree
        if isinstance(spec, (S.Map, S.Sub)):
            t = d.choice(['text', 'a b', '7'])
            return [t], t
        t = self.scalar_text(spec)
        if lines and isinstance(spec, (S.Str, S.Any)) and d.p(12):
            more = [clean(self.scalar_text(spec), False) for _ in range(d.int(1, 3))]
            if d.p(20):
                more.insert(0, '')
            out = [t] + more
            return out, '\n'.join(out)
        return [t], t

    def word(self, text):
        """As one shell word."""
        d = self.d
        k = d.n(3)
        if (k == 3 or '#' in text and d.bool()) and text and not set(text) & set('"\\' + "'") and text.split() == [text]:
            return text
        if k == 0 or not text:
            return shlex.quote(text)
        if k == 1 and not set(text) & set('"\\$`'):
            return '"{0}"'.format(text)
        return ''.join(c if c.isalnum() else '\\' + c for c in text)

    def section(self, form, texts, tree, defaults):
        """Options of a form: [(option, lines)] and the data they stand for."""
        d = self.d
        for name, s in form.fields:
            key = s.src
            if d.p(self.fault // 2) or s.default[0] != 'required' and d.p(30):
                if d.p(40):
                    v = s.raw(d, 10, 'json')
                    # text stands for a sequence there, too
                    if not any(isinstance(x, (S.List, S.Tup)) for x in S.walk(s)) or flat_sequence(v):
                        defaults[key] = tree[key] = v
                continue
            if isinstance(s, (S.Map, S.Sub)) and not d.p(self.fault // 4):
                tree[key] = {}
                pairs = []
                if isinstance(s, S.Sub):
                    for n2, s2 in s.form.fields:
                        k2 = s2.src if s2.src is not None else n2
                        if not d.p(self.fault // 3) and not (s2.default[0] != 'required' and d.p(30)):
                            pairs.append((k2, s2))
                else:
                    pairs = [(k, s.value) for k in d.sample(SUBKEYS, d.int(1, 4))]
                if not pairs:
                    del tree[key]
                for k2, s2 in d.shuffled(pairs):
                    lines, v = self.value(s2)
                    texts.append(('{0}[{1}]'.format(key, k2), lines))
                    tree[key][k2] = v
            else:
                lines, v = self.value(s)
                texts.append((key, lines))
                tree[key] = v
                if d.p(15):
                    # not needed
                    defaults[key] = 'unused'
        return texts, tree


def draw_form(d, case):
    form = S.draw_form(d, G, lo=1)
    used = []
    fields = []
    for name, s in form.fields:
        key = d.choice(OPTIONS)
        if case:
            key = d.choice([key, key.upper(), key.title()])
        if isinstance(s, (S.Map, S.Sub)):
            key = key.replace('-', '_').replace('.', '_')
        if key in used:
            continue
        used.append(key)
        s.src = key
        for x in S.walk(s):
            if isinstance(x, S.Sub):
                for i, (n2, s2) in enumerate(x.form.fields):
                    s2.src = 'f{0}'.format(i) if n2 != n2.lower() and not case else s2.src
        fields.append((name, s))
    return S.Form(fields)


def mixed(d, options):
    """Options in any order, but those of one mapping in theirs."""
    out = d.shuffled(options)
    for name in set(o.split('[')[0] for o, _ in out if '[' in o):
        at = [i for i, (o, _) in enumerate(out) if o.startswith(name + '[')]
        for i, x in zip(at, [x for x in options if x[0].startswith(name + '[')]):
            out[i] = x
    return out


def ini(d, sections, ascii_only):
    out = []

    def noise():
        if d.p(12):
            out.append(d.choice(['', '# comment', '; other = 3', '   ', '#name = 1']))

    for title, options in sections:
        noise()
        out.append('[{0}]'.format(title))
        for option, lines in mixed(d, options):
            noise()
            sep = d.choice([' = ', '=', ': ', ' : ', ' ='])
            escaped = [x.replace('%', '%%') for x in lines]
            out.append(option + sep + escaped[0])
            for x in escaped[1:]:
                out.append('    ' + x if x else '')
        noise()
    return '\n'.join(out) + '\n'


def config(d):
    kind = d.choice(['text', 'text', 'object', 'file'])
    writer = Writer(d, d.choice([0, 0, 25, 50]), kind == 'file')
    every = d.p(35)
    case = kind != 'object' and d.p(25)
    kw = {}
    if case:
        kw['preserve_case'] = True
    sections, defaults = [], {}
    if every:
        fields, tree = [], {}
        titles = d.sample(SECTIONS, d.int(1, 4))
        for i, title in enumerate(titles):
            form = draw_form(d, case)
            s = S.Sub(form)
            s.src = title
            if d.p(30):
                s.default = S.OPTIONAL
            fields.append(('s{0}'.format(i), s))
            if d.p(10):
                continue
            dd = {}
            tree[title] = {}
            texts, _t = writer.section(form, [], tree[title], dd)
            if dd:
                defaults[title] = dd
            sections.append((title, texts))
        root = S.Form(fields)
    else:
        title = kw['section'] = d.choice(SECTIONS)
        root, tree = draw_form(d, case), {}
        texts, _t = writer.section(root, [], tree, defaults)
        sections.append((title, texts))
        for other in d.sample([x for x in SECTIONS if x != title], d.int(0, 2)):
            # not to be seen
            sections.append((other, [(k, ['wrong']) for k in d.sample(OPTIONS + ['name[a]'], d.int(0, 4))]))
    if defaults or d.bool():
        kw['defaults'] = defaults or d.choice([None, {}])
    extra = [(k, ['1']) for k in d.sample(['zz', 'unused', 'qq[a]', 'qq[b]'], d.int(0, 2))]
    if sections and d.bool():
        at = d.n(len(sections) - 1)
        sections[at] = (sections[at][0], sections[at][1] + extra)
    sections = d.shuffled(sections)
    text = ini(d, sections, kind == 'file')
    if not case and d.p(20):
        # options in any case
        text = upper(d, text, sections)
    if kind == 'text' and d.bool():
        kw['location'] = d.choice(['conf.ini', 'a b'])
    d.note('form', root)
    d.note('configuration', text)
    d.note('options', (kind, kw))
    d.note('tree', tree)
    cls = root.build()
    if kind == 'file':
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, 'some.ini')
            with open(path, 'w') as fo:
                fo.write(text)
            source = ConfigSource.from_file(path, **kw)
            check(d, root, cls, source, tree, path, kw)
    else:
        if kind == 'object':
            parser = configparser.ConfigParser() if d.bool() else configparser.SafeConfigParser()
            parser.read_string(text)
            source = ConfigSource(parser, **kw)
        else:
            source = ConfigSource(text, **kw)
        check(d, root, cls, source, tree, kw.get('location'), kw)
    n = sum(len(o) for _, o in sections)
    if n > 2 or any(isinstance(x, (list, dict)) for x in tree.values()):
        d.nontrivial((repr(root), text))
    d.label(kind)
    d.label('all sections' if every else 'one section')


def upper(d, text, sections):
    names = set(o for _, opts in sections for o, _ in opts if '[' not in o)
    out = []
    for line in text.split('\n'):
        for n in names:
            for sep in (' =', '=', ':', ' :'):
                if line.startswith(n + sep) and d.bool():
                    line = n.upper() + line[len(n):]
                    break
        out.append(line)
    return '\n'.join(out)


def check(d, root, cls, source, tree, location, kw):
    prefix = ''
    if location:
        prefix += location + ':'
    if kw.get('section'):
        prefix += '[{0}]:'.format(kw['section'])
    cx = S.Cx('native', prefix=prefix)
    want = root.map(cx, tree)
    for again in range(2):
        got, errors = S.outcome(cls, source)
        S.compare_errors(errors, cx.errors)
        S.compare_value(got, want)
    if cx.errors:
        d.label('errors')


def block(d):
    """Lines of a value that has several, as they should be read."""
    lines = []
    for i in range(d.int(1, 4)):
        if i and d.p(20):
            lines.append('')
            continue
        indent = '' if not lines else ' ' * d.choice([0, 0, 1, 2, 4])
        lines.append(indent + d.choice(['def f():', 'return 1', 'x', 'a text', '[s]', '[t1]', 'a1 - b', '(ab', 'abc']))
    while not lines[-1]:
        lines.pop()
    return lines


def preserved(d):
    """preserve_whitespace keeps what lines of a value look like."""
    names = ['a', 'ab', 'abc', 'b', 'b_c', 'a[b]', 'a[bc]', 'ab[a]', 'ab[b]', 'Ab']
    case = d.p(30)
    if not case:
        names.pop()
    text, want, flat = [], {}, {}
    sections = d.sample(['s', 't1', 'tt', 't'], d.int(1, 3))
    if d.p(25):
        sections.insert(0, 'DEFAULT')
    below = {}
    for section in sections:
        have = want[section] = {}
        text.append('[{0}]'.format(section))
        plain = d.sample(names[:5], d.int(0, 4)) + [n for n in names[9:] if d.bool()]
        subs = [n for n in d.sample(names[5:9], d.int(0, 3)) if n[:n.index('[')] not in plain]
        if section == 'DEFAULT':
            # seen in every section
            subs = []
        for name in d.shuffled(plain + subs):
            if d.p(15):
                text.append(d.choice(['# abc = 1', '; a', '']))
            sep = d.choice([' = ', '=', ': ', ' : '])
            if d.p(30):
                value = d.choice(['one', 'two words', '  1'])
                text.append(name + sep + value)
                value = value.strip()
            else:
                lines = block(d)
                first = d.choice(['', '', 'first', 'a = b'])
                pad = ' ' * d.int(1, 5)
                text.append((name + sep + first).rstrip())
                text += [pad + x if x else d.choice(['', pad]) for x in lines]
                value = '\n'.join(([first] if first else []) + lines)
                if section == 'DEFAULT' or not first and len(lines) == 1:
                    value = None    # read as usual, see below
                    # one line after the first is two lines
                    below[(section, name)] = '\n'.join([first] + [x.strip() for x in lines])
                    if section != 'DEFAULT':
                        value = lines[0]
            have[name] = value if value is not None else below[(section, name)]
    default = want.pop('DEFAULT', {})
    shown = d.choice([None] + sorted(want))
    if not want:
        return
    extra = {}
    if shown and d.p(40):
        extra = dict((k, 'x\n  y') for k in d.sample(['zz', 'a', 'b'], d.int(1, 2)))
    forms = {}
    for section, have in want.items():
        for k, v in default.items():
            have.setdefault(k, v)
        if section == shown:
            for k, v in extra.items():
                if not any(o.startswith(k + '[') for o in have):
                    have.setdefault(k, v)
        form, values = {}, {}
        plain = sorted(n for n in have if '[' not in n and not any(o.startswith(n + '[') for o in have))
        for name in plain:
            form['f_' + name] = pf.String(name)
            values['f_' + name] = have[name]
        for name in sorted(set(n[:n.index('[')] for n in have if '[' in n)):
            form['m_' + name] = pf.Dict(pf.String(), pf.String(), name)
            values['m_' + name] = dict((n[len(name) + 1:-1], v) for n, v in have.items() if n.startswith(name + '['))
        forms[section] = (type('F', (pilo.Form,), form), values)
    if shown:
        cls, values = forms[shown]
    else:
        cls = type('F', (pilo.Form,), dict(('s_' + k, pf.SubForm(v[0], k)) for k, v in forms.items()))
        values = dict(('s_' + k, v[1]) for k, v in forms.items())
    content = '\n'.join(text) + '\n'
    d.note('configuration', content)
    d.note('section', (shown, extra))
    kw = dict(preserve_whitespace=True, preserve_case=case)
    if shown:
        kw['section'] = shown
    if extra:
        kw['defaults'] = extra
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'some.ini')
        with open(path, 'w') as fo:
            fo.write(content)
        form, errors = S.outcome(cls, ConfigSource.from_file(path, **kw))
    if errors:
        raise Violation('errors {0!r}'.format([str(e) for e in errors]))
    r = S.differs(ended(form), values)
    if r:
        raise Violation(r)
    if any('\n' in (v or '') for _, have in forms.values() for v in have.values() if not isinstance(v, dict)):
        d.nontrivial((content, shown, repr(extra)))
        d.label('whitespace')


def ended(v):
    """Without blank lines at the end of texts, and blank lines empty."""
    if isinstance(v, dict):
        return dict((k, ended(x)) for k, x in v.items())
    return '\n'.join(x.rstrip() for x in v.rstrip().split('\n'))


TESTS = [
    ('config', config, 6000, 120000),
    ('preserved', preserved, 3000, 60000),
]
