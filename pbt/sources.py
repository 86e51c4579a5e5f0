"""Sources of each kind for raw data."""
import collections
import collections.abc
import json
import types

import pilo
from pilo.source import DefaultSource, JsonSource, ParserMixin, Path, Source, SourceError

from . import spec as S


def source_for(d, flavor, raw, location=None):
    """(source, model flavor): `raw` as seen through a source."""
    if flavor == 'native':
        if location is None and d.bool():
            return raw
        return DefaultSource(raw, location=location)
    text = json.dumps(raw, ensure_ascii=d.bool())
    if d.p(20):
        text = text.encode('utf8')
    if flavor == 'strict':
        return JsonSource(text, strict=True, location=location)
    return JsonSource(text, location=location)


def ini_text(s):
    """Whether `s` can be the value of an option as is."""
    return s == s.strip() and all(c.isprintable() for c in s) and '%' not in s


class Row(collections.abc.Sequence):
    """A sequence of one's own."""

    def __init__(self, items):
        self._row_ = tuple(items)

    def __len__(self):
        return len(self._row_)

    def __getitem__(self, i):
        return self._row_[i]

    def __repr__(self):
        return 'Row({0!r})'.format(self._row_)


class Table(collections.abc.Mapping):
    """A mapping of one's own."""

    def __init__(self, items):
        self._table_ = dict(items)

    def __len__(self):
        return len(self._table_)

    def __iter__(self):
        return iter(self._table_)

    def __getitem__(self, k):
        return self._table_[k]

    def __repr__(self):
        return 'Table({0!r})'.format(self._table_)


def _range(v):
    v = list(v)
    if v and all(type(x) is int and x == v[0] + i for i, x in enumerate(v)):
        return range(v[0], v[0] + len(v))
    return Row(v)


class Node(object):
    """An element of a document of one's own."""

    def __init__(self, tag, items):
        self.tag, self.items = tag, items

    def plain(self):
        items = [(k, v.plain() if isinstance(v, Node) else v) for k, v in self.items]
        return dict(items) if self.tag == 'map' else [v for _, v in items]


def node(raw):
    if isinstance(raw, dict):
        return Node('map', [(k, node(v)) for k, v in raw.items()])
    if isinstance(raw, (list, tuple)):
        return Node('list', [(None, node(v)) for v in raw])
    return raw


class OwnError(SourceError):

    pass


class OwnPath(Path):

    def __init__(self, src):
        super(OwnPath, self).__init__(src, src.root, src.location)

    def __str__(self):
        text = super(OwnPath, self).__str__()
        return '{0}:{1}'.format(self.location, text) if self.location else text

    def resolve(self, container, part):
        if isinstance(container, Node):
            if container.tag == 'map':
                for k, v in container.items:
                    if k == part.key:
                        return v
            elif isinstance(part.key, int) and 0 <= part.key < len(container.items):
                return container.items[part.key][1]
        return pilo.NONE


class OwnSource(Source, ParserMixin):
    """A kind of source of one's own."""

    error = OwnError

    def __init__(self, raw, location=None):
        super(OwnSource, self).__init__()
        self.root, self.location = node(raw), location

    def path(self):
        return OwnPath(self)

    def mapping(self, path):
        if isinstance(path.value, Node) and path.value.tag == 'map':
            return [k for k, _ in path.value.items]
        raise self.error(path, 'no map')

    def sequence(self, path):
        if isinstance(path.value, Node) and path.value.tag == 'list':
            return len(path.value.items)
        raise self.error(path, 'no list')

    def primitive(self, path, *types):
        value = path.value
        return self.parser(types)(self, path, value.plain() if isinstance(value, Node) else value)


SEQUENCES = [list, tuple, Row, collections.deque, _range]
MAPPINGS = [dict, Table, collections.OrderedDict, types.MappingProxyType]


def exotic(d, spec, raw):
    """`raw` with containers of other types where `spec` reads containers."""
    if isinstance(spec, S.List):
        if isinstance(raw, (list, tuple)):
            return d.choice(SEQUENCES)([exotic(d, spec.item, x) for x in raw])
        return exotic(d, spec.item, raw) if spec.allow_field else raw
    if isinstance(spec, S.Tup):
        if isinstance(raw, (list, tuple)):
            return d.choice(SEQUENCES)([exotic(d, spec.items[i], x) if i < len(spec.items) else x
                                        for i, x in enumerate(raw)])
        return raw
    if isinstance(spec, S.Map):
        if isinstance(raw, dict):
            return d.choice(MAPPINGS)(dict((k, exotic(d, spec.value, x)) for k, x in raw.items()))
        return raw
    if isinstance(spec, S.Sub) and isinstance(raw, dict) and spec.unmapped is None:
        return exotic_form(d, spec.form, raw)
    return raw


def exotic_form(d, form, raw):
    out = dict(raw)
    keys = [s.src if s.src is not None else n for n, s in form.fields]
    for (n, s), key in zip(form.fields, keys):
        if key in out and keys.count(key) == 1 and not s.whole:
            out[key] = exotic(d, s, out[key])
    return d.choice(MAPPINGS)(out)
