import sys, os
R = sys.argv[1]
F, C, P, G, U, D, M, I, J = ('pilo/fields.py', 'pilo/context.py', 'pilo/source/__init__.py', 'pilo/source/configparser.py',
                             'pilo/source/union.py', 'pilo/source/default.py', 'pilo/source/mount.py', 'pilo/__init__.py',
                             'pilo/source/json.py')
def rep(path, old, new, n=1):
    p = os.path.join(R, path)
    s = open(p).read()
    if s.count(old) != n:
        print('edit does not apply', path, s.count(old), repr(old[:60]))
        return
    open(p, 'w').write(s.replace(old, new))

# order of the keys of unions
rep(U, '''        keys = (key for _, mapping in self.mappings for key in mapping)
        return len(list(set(keys)))
''', '''        return len(self._keys())
''')
rep(U, '''        keys = (key for _, mapping in self.mappings for key in mapping)
        return iter(list(set(keys)))
''', '''        return iter(self._keys())

    def _keys(self):
        keys = collections.OrderedDict()
        for _, mapping in self.mappings:
            for key in mapping:
                keys[key] = None
        return list(keys)
''')
rep(U, '''        paths = []
        for path, keys in self.mappings:
            if key in keys:
                path = copy.copy(path)
                path.append(key)
                paths.append(path)
        if not paths:
''', '''        def below(path):
            path = copy.copy(path)
            path.append(key)
            return path

        paths = [below(path) for path, keys in self.mappings if key in keys]
        if not paths:
''')
rep(U, '''        for path in self.paths:
            if not path.is_null:
                return path.primitive(*types)
        return NONE
''', '''        path = next((path for path in self.paths if not path.is_null), None)
        return NONE if path is None else path.primitive(*types)
''')
# parts
rep(D, '''            part = copy.copy(part)
            part.key = part.key[:-2]
            value = self.resolve(container, part, call=True, depth=depth)
''', '''            value = self.resolve(container, PathPart(part.key[:-2]), call=True, depth=depth)
''')
rep(D, 'from . import Source, Path, ParserMixin, NONE', 'from . import Source, Path, PathPart, ParserMixin, NONE')
rep(D, 'import copy\n', '')
rep(D, '''        if isinstance(path.value, (collections.Mapping, dict)):
            if self.aliases and len(path) == 0:
                return self.aliases.keys()
            return path.value.keys()
        if isinstance(path.value, (collections.Sequence, list, tuple)) and self.aliases and len(path) == 0:
            return self.aliases.keys()
        raise self.error(path, 'is not a mapping')
''', '''        value = path.value
        is_mapping = isinstance(value, (collections.Mapping, dict))
        if not is_mapping and not isinstance(value, (collections.Sequence, list, tuple)):
            raise self.error(path, 'is not a mapping')
        if self.aliases and len(path) == 0:
            return self.aliases.keys()
        if not is_mapping:
            raise self.error(path, 'is not a mapping')
        return value.keys()
''')
rep(P, '''        for i, part in enumerate(reversed(self.parts)):
            if part.value is not NOT_SET:
                i, value = len(self.parts) - i, part.value
                break
        else:
            i, value = 0, self.root

        for part in self.parts[i:]:
            if value is NONE:
                break
            value = part.value = self.resolve(value, part)

        return value
''', '''        todo = []
        value = self.root
        for part in reversed(self.parts):
            if part.value is not NOT_SET:
                value = part.value
                break
            todo.append(part)
        while todo and value is not NONE:
            part = todo.pop()
            value = self.resolve(value, part)
            part.value = value
        return value
''')
# contexts
rep(C, '''        for i, frame in enumerate(reversed(self.stack)):
            if stop(frame):
                depth = len(self.stack) - i
                break
        else:
            raise RewindDidNotStop()
        frames = self.stack[depth:]
        del self.stack[depth:]
''', '''        depth = len(self.stack)
        while depth and not stop(self.stack[depth - 1]):
            depth -= 1
        if not depth:
            raise RewindDidNotStop()
        self.stack, frames = self.stack[:depth], self.stack[depth:]
''')
rep(C, '''        if 'src' in kwargs:
            if isinstance(kwargs['src'], Source):
                kwargs['src_path'] = kwargs['src'].path()
            else:
                self.src_path.append(kwargs['src'])
        self.stack.append(Frame(**kwargs))
        return Close(self.restore)
''', '''        frame = Frame(**kwargs)
        if 'src' in frame:
            src = frame['src']
            if isinstance(src, Source):
                frame['src_path'] = src.path()
            else:
                self.src_path.append(src)
        self.stack.append(frame)
        return Close(lambda: self.restore())
''')
# errors
rep(F, '''        msg = '\\n* '.join(
            '{0}: {1}'.format(exc.__class__.__name__, str(exc))
            for exc in self.field_errors
        )
        return '\\n* {0}\\n'.format(msg)
''', '''        lines = []
        for exc in self.field_errors:
            lines.append('{0}: {1}'.format(type(exc).__name__, exc))
        return '\\n* ' + '\\n* '.join(lines) + '\\n'
''')
rep(F, '''        self.extend(excs)
        field_errors = [e for e in self if isinstance(e, FieldError)]
        if field_errors:
            raise FormError(*field_errors)
        raise self[0]
''', '''        for ex in excs:
            self.append(ex)
        errors = tuple(e for e in self if isinstance(e, FieldError))
        raise FormError(*errors) if errors else self[0]
''')
# fields
rep(F, '''        dict_field = Dict(*directive)
        dict_field.key_filter.attach(self)(lambda self, key: key not in self)
        return dict_field.map()
''', '''        key_field, value_field = directive

        def is_unmapped(self, key):
            return key not in self

        dict_field = Dict(key_field, value_field)
        dict_field.key_filter.attach(self)(is_unmapped)
        return dict_field.map()
''')
rep(F, '''        length = path.sequence()
        if length != len(self.fields):
''', '''        length = path.sequence()
        fields = list(self.fields)
        if not len(fields) == length:
''')
rep(F, '''        value = []
        for i in six.moves.range(length):
            with self.ctx(src=i):
                item = self.fields[i].map()
                if item in IGNORE:
                    continue
                value.append(item)
        return tuple(value)
''', '''        items = []
        for i, field in enumerate(fields):
            close = self.ctx.push(src=i)
            with close:
                items.append(field.map())
        return tuple(item for item in items if item not in IGNORE)
''')
rep(F, '''        keys = path.mapping()
        if keys is NONE:
            return self._default()
        matches = 0
''', '''        keys = path.mapping()
        if keys is NONE:
            return self._default()
        keys = list(keys)
        matches = 0
''')
rep(F, '''        if self.default in IGNORE:
            return self.default
        if isinstance(self.default, Hook):
            if self.default:
                return self.default()
            if not self.ctx.ignore_missing:
                self.ctx.errors.missing()
            return NOT_SET
        if isinstance(self.default, type) or callable(self.default):
            return self.default()
        return self.default
''', '''        default = self.default
        if default in IGNORE:
            return default
        if isinstance(default, Hook) and not default:
            if not self.ctx.ignore_missing:
                self.ctx.errors.missing()
            return NOT_SET
        return default() if callable(default) else default
''')
rep(F, '''        tags = tags if tags else getattr(self.ctx, 'tags', None)
        if isinstance(tags, list):
            tags = set(tags)
''', '''        tags = tags or getattr(self.ctx, 'tags', None)
        if tags and isinstance(tags, list):
            tags = frozenset(tags)
''')
rep(F, '''            missing_keys = [key for key in self.required_keys if key not in value]
                if missing_keys:''', '''            missing_keys = list(filter(lambda key: key not in value, self.required_keys))
                if len(missing_keys) > 0:''')
rep(F, '''        for field in type(self).fields:
            if tags and not tags & set(field.tags.keys()):
                continue
            try:
                field.__delete__(self)
            except FieldError:
                pass
''', '''        for field in type(self).fields:
            if tags and not tags & set(field.tags):
                continue
            self.pop(field.name, None)
''')
rep(I, '''        def _map(form_cls):
            if not inspect.isabstract(object):
                try:
                    instance = getattr(form_cls, field.name)
                    for value in instance.choices or []:
                        identities[value] = form_cls
                except AttributeError:
                    pass
            for sub_cls in form_cls.__subclasses__():
                _map(sub_cls)
''', '''        def _map(form_cls):
            choices = getattr(getattr(form_cls, field.name, None), 'choices', None)
            identities.update((value, form_cls) for value in choices or ())
            for sub_cls in form_cls.__subclasses__():
                _map(sub_cls)
''')
# sources
rep(G, '''        keys = [part.key for part in path]
        section = self.section or keys.pop(0)
''', '''        keys = [part.key for part in path.parts]
        if self.section:
            section = self.section
        else:
            section, keys = keys[0], keys[1:]
''')
rep(G, '''        for option, value in self.config.items(section):
            m = re.match(pattern, option)
            if not m:
                continue
            self.sub_mappings[m.group('name')][m.group('key')] = value
''', '''        for option, value in self.config.items(section):
            m = re.match(pattern, option)
            if m:
                name, key = m.groups()
                self.sub_mappings.setdefault(name, {})[key] = value
''')
rep(J, '''        if not isinstance(path.value, (dict,)):
            raise self.error(path, 'not a mapping')
        return path.value.keys()
''', '''        value = path.value
        if isinstance(value, dict):
            return list(value)
        raise self.error(path, 'not a mapping')
''')
rep(M, '''        return dict(
''', '''        return dict(
''') if False else None
rep(M, '''        return self.paths.get(self.part.key, self.dne) if self.part else None
''', '''        if not self.part:
            return None
        key = self.part.key
        return self.paths[key] if key in self.paths else self.dne
''')
