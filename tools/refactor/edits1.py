"""Edits that keep the behaviour: python3 edits1.py COPY_OF_REPO."""
import sys,subprocess,os
DST=sys.argv[1]      # a copy of /repo
def rep(path, old, new, n=1):
    p=os.path.join(DST,path); s=open(p).read()
    assert s.count(old)==n,(path,old,s.count(old))
    open(p,'w').write(s.replace(old,new))
F='pilo/fields.py'
# 1 _map
rep(F,'''        # resolve
        close = Close.dummy
        if value is NONE:
            if self.resolve:
                close = self.resolve()
            else:
                close = self._resolve()
            if close is None:
                close = Close.dummy

        with close:
            # compute
            if value is NONE:
                if self.compute:
                    value = self.compute()
                else:
                    value = self._compute()
                if value is NONE:
                    if isinstance(self.default, Hook) and self.default:
                        return self.default()
                    return self._default()
                if value in IGNORE:
                    return value

            # munge
            value = self._munge(value)
            if value not in IGNORE and self.munge:
                value = self.munge(value)
            if value is NONE:
                return self._default()
            if value in IGNORE:
                return value

            # filter
            if not self._filter(value) or (self.filter and not self.filter(value)):
                return self._default()

            # validate
            if not self._validate(value) or (self.validate and not self.validate(value)):
                return ERROR

        return value
''','''        if value is not NONE:
            return self._finish(value)
        with self._locate():
            value = (self.compute or self._compute)()
            if value is NONE:
                has_hook = isinstance(self.default, Hook) and self.default
                return self.default() if has_hook else self._default()
            if any(value is ignored or value == ignored for ignored in IGNORE):
                return value
            return self._finish(value)

    def _locate(self):
        """
        Enters the source value of this field.
        """
        close = (self.resolve or self._resolve)()
        return Close.dummy if close is None else close

    def _finish(self, value):
        """
        What is done with a computed value.
        """
        value = self._munge(value)
        if self.munge and value not in IGNORE:
            value = self.munge(value)
        if value is NONE:
            return self._default()
        if value in IGNORE:
            return value
        keep = self._filter(value)
        if keep and self.filter:
            keep = self.filter(value)
        if not keep:
            return self._default()
        valid = self._validate(value)
        if valid and self.validate:
            valid = self.validate(value)
        return value if valid else ERROR
''')
# 2 default
rep(F,'''        if self.ctx.ignore_default:
            if not self.ctx.ignore_missing:
                self.ctx.errors.missing()
            return NOT_SET
        if self.default is NOT_SET:
            if not self.ctx.ignore_missing:
                self.ctx.errors.missing()
            return NOT_SET
        if self.default in IGNORE:
            return self.default
        if isinstance(self.default, Hook):
            if self.default:
                return self.default()
            if not self.ctx.ignore_missing:
                self.ctx.errors.missing()
            return NOT_SET
        if isinstance(self.default, type) or callable(self.default):
            return self.default()
        return self.default
''','''        default = self.default
        required = default is NOT_SET or (isinstance(default, Hook) and not default)
        if self.ctx.ignore_default or required:
            return self._missing()
        if default in IGNORE:
            return default
        return default() if callable(default) else default

    def _missing(self):
        if not self.ctx.ignore_missing:
            self.ctx.errors.missing()
        return NOT_SET
''')
# 4 range
rng='''            try:
                if self.after_value is not None and value < self.after_value:
                    self.ctx.errors.invalid('Must be after {0}'.format(self.after_value))
                    return False
                if self.before_value is not None and value > self.before_value:
                    self.ctx.errors.invalid('Must be before {0}'.format(self.before_value))
                    return False
            except TypeError as ex:  # e.g. a datetime and a date
                self.ctx.errors.invalid(str(ex))
                return False
        return True
'''
rep(F,rng,'''            return self._in_range(value)
        return True
''',3)
rep(F,'''    def between(self, l, r):
        return self.after(l).before(r)
''','''    def between(self, l, r):
        self.after(l)
        self.before(r)
        return self

    def _in_range(self, value):
        violation = None
        try:
            if self.after_value is not None and value < self.after_value:
                violation = 'Must be after {0}'.format(self.after_value)
            elif self.before_value is not None and value > self.before_value:
                violation = 'Must be before {0}'.format(self.before_value)
        except TypeError as ex:  # e.g. a datetime and a date
            violation = str(ex)
        if violation is None:
            return True
        self.ctx.errors.invalid(violation)
        return False
''')
# 5 string
s=open(os.path.join(DST,F)).read()
a=s.index("        if self.alphabet:\n            invalid = list(set("); b=s.index("class Number(Field)")
s=s[:a]+'''        for violation in self._violations(value):
            self.ctx.errors.invalid(violation)
            return False
        return True

    def _violations(self, value):
        if self.alphabet:
            invalid = set(value) - set(self.alphabet)
            if invalid:
                yield 'has invalid characters "{0}"'.format(''.join(invalid))
        if self.min_length is not None and len(value) < self.min_length:
            yield '"{0}" must have length >= {1}'.format(value, self.min_length)
        if self.max_length is not None and len(value) > self.max_length:
            yield '"{0}" must have length <= {1}'.format(value, self.max_length)
        if self.pattern_re and not self.pattern_re.match(value):
            yield '"{0}" must match pattern "{1}"'.format(value, self.pattern_re.pattern)
        if not self.choices or value in self.choices or value in self.translations.values():
            return
        if len(self.choices) == 1:
            yield '"{0}" is not "{1}"'.format(value, list(self.choices)[0])
        else:
            yield '"{0}" is not one of {1}'.format(value, ', '.join('"{0}"'.format(c) for c in self.choices))


'''+s[b:]
# 22 pattern
a=s.index("    def pattern(self, pattern_re):"); b=s.index("    def _parse(self, path):\n        return path.primitive(int)")
s=s[:a]+'''    def pattern(self, pattern_re):
        return self.parse(matching(pattern_re, int))

'''+s[b:]
a=s.index("    def pattern(self, pattern_re):\n        if"); b=s.index("    def _parse(self, path):\n        return path.primitive(float)")
s=s[:a]+'''    def pattern(self, pattern_re):
        return self.parse(matching(pattern_re, float))

'''+s[b:]
s=s.replace("class Integer(Number):",'''def matching(pattern_re, convert):
    if isinstance(pattern_re, six.string_types):
        pattern_re = re.compile(pattern_re)

    def parse(self, path):
        text = path.primitive(six.string_types[0])
        match = pattern_re.match(text)
        if match:
            return convert(match.group())
        raise ValueError('{0} does not match pattern "{1}"'.format(text, pattern_re.pattern))

    return parse


class Integer(Number):''')
open(os.path.join(DST,F),'w').write(s)
# 6 containers
rep(F,'''        value = []
        for i in six.moves.range(length):
            with self.ctx(src=i):
                item = self.fields[i].map()
                if item in IGNORE:
                    continue
                value.append(item)
        return tuple(value)
''','''        return tuple(each(self.ctx, enumerate(self.fields)))


def each(ctx, fields):
    """
    The values of fields by index.
    """
    for i, field in fields:
        with ctx(src=i):
            item = field.map()
        if not any(item is ignored for ignored in IGNORE):
            yield item
''')
rep(F,'''            value = []
            for i in six.moves.range(length):
                with self.ctx(src=i):
                    item = self.field.map()
                    if item in IGNORE:
                        continue
                    value.append(item)
        return value
''','''            value = list(each(self.ctx, ((i, self.field) for i in six.moves.range(length))))
        return value
''')
rep(F,'''        mapping = {}
        key_filter = self.key_filter if self.key_filter else self._key_filter
        for key in keys:
            if not key_filter(key):
                continue
            with self.ctx(src=key):
                value = self.value_field.map()
                if value in IGNORE:
                    continue
            try:
                key = self.key_field(key)
            except TypeError as ex:  # e.g. another type than its bounds
                self.ctx.errors.invalid(str(ex))
                continue
            if key in IGNORE:
                continue
            mapping[key] = value
        return mapping
''','''        mapping = {}
        for key in six.moves.filter(self.key_filter or self._key_filter, keys):
            with self.ctx(src=key):
                value = self.value_field.map()
            if value in IGNORE:
                continue
            key = self._map_key(key)
            if key not in IGNORE:
                mapping[key] = value
        return mapping

    def _map_key(self, key):
        try:
            return self.key_field.map(key)
        except TypeError as ex:  # e.g. another type than its bounds
            self.ctx.errors.invalid(str(ex))
            return ERROR
''')
# 7 sub
rep(F,'''        form = self.form_type()
        errors = form.map(reset=self.reset, unmapped=self.unmapped)
        if errors:
            return ERROR
        return form
''','''        return map_sub(self, self.form_type)
''')
rep(F,'''        form_type = self._form_type(path)
        if form_type in IGNORE:
            return form_type
        form = form_type()
        errors = form.map(reset=self.reset, unmapped=self.unmapped)
        if errors:
            return ERROR
        return form
''','''        form_type = self._form_type(path)
        return form_type if form_type in IGNORE else map_sub(self, form_type)
''')
rep(F,'''class SubForm(Field):
''','''def map_sub(field, form_type):
    form = form_type()
    if form.map(reset=field.reset, unmapped=field.unmapped):
        return ERROR
    return form


class SubForm(Field):
''')
# 8 group
rep(F,'''        for src, field in self.fields:
            if isinstance(src, six.string_types):
                if src == key:
                    return field, None
            elif isinstance(key, six.string_types):
                m = src.match(key)
                if m is not None:
                    return field, m
''','''        textual = isinstance(key, six.string_types)
        for src, field in self.fields:
            literal = isinstance(src, six.string_types)
            if literal and src == key:
                return field, None
            m = src.match(key) if textual and not literal else None
            if m is not None:
                return field, m
        return None
''')
rep(F,'''        matches = 0
        values = []
        for key in keys:
            match = self._match(key)
            if match is None:
                continue
            matches += 1
            field, captures = match
            with self.ctx(src=key):
                value = field.map()
                if value in IGNORE:
                    continue
                values.append((key, captures, value))
        return values if matches else NONE
''','''        matched = [(key, match) for key, match in ((key, self._match(key)) for key in keys) if match is not None]
        if not matched:
            return NONE
        values = []
        for key, (field, captures) in matched:
            close = self.ctx(src=key)
            with close:
                value = field.map()
            if value not in IGNORE:
                values.append((key, captures, value))
        return values
''')
# 9 meta
rep(F,'''        def is_field(x):
            return isinstance(x, Field)

        fields, field_ids = [], set()
        for name, field in inspect.getmembers(cls, is_field):
            if not field.is_attached:
                field.attach(cls, name)
            if id(field) not in field_ids:
                fields.append(field)
                field_ids.add(id(field))
        fields.sort(key=lambda x: x._count)
        cls.fields = fields
        return cls
''','''        by_id = {}
        for name, field in inspect.getmembers(cls, lambda x: isinstance(x, Field)):
            if not field.is_attached:
                field.attach(cls, name)
            by_id[id(field)] = by_id.get(id(field), field)
        cls.fields = sorted(by_id.values(), key=lambda x: x._count)
        return cls
''')
rep(F,'''            for base in inspect.getmro(parent)[1:]:
                if not hasattr(base, self.name) or not isinstance(getattr(base, self.name), Field):
                    continue
                self._count = getattr(base, self.name)._count
                break
''','''            inherited = [getattr(base, self.name, None) for base in inspect.getmro(parent)[1:]]
            inherited = [x for x in inherited if isinstance(x, Field)]
            if inherited:
                self._count = inherited[0]._count
''')
# 10 munge, copy
rep(F,'''        form = type(self)()
        for field in type(self).fields:
            if field.name not in self:
                value = NONE
            else:
                value = self[field.name]
            value = func(form, field, value)
            if value is NONE:
                continue
            if isinstance(value, Form):
                value = value.munge(func)
            elif isinstance(value, (list, tuple)):
                items = []
                for item in value:
                    if isinstance(item, Form):
                        item = item.munge(func)
                    items.append(item)
                if isinstance(value, list):
                    value = items
                elif any(isinstance(item, Form) for item in value):
                    value = tuple(items)
            form[field.name] = value
        return form
''','''        form = type(self)()

        def munged(value):
            if isinstance(value, Form):
                return value.munge(func)
            if isinstance(value, list):
                return [x.munge(func) if isinstance(x, Form) else x for x in value]
            if isinstance(value, tuple) and any(isinstance(x, Form) for x in value):
                return tuple(x.munge(func) if isinstance(x, Form) else x for x in value)
            return value

        for field in type(self).fields:
            value = func(form, field, self.get(field.name, NONE))
            if value is not NONE:
                form[field.name] = munged(value)
        return form
''')
rep(F,'''        for k in self:
            dst[k] = self[k]
        return dst''','''        dst.update(self)
        return dst''')
rep(F,'''            hit = any(field.has_tag(tag) for tag in tags)
            if inv:
                hit = not hit
            return value if hit else NONE
''','''            return NONE if bool(set(tags) & set(field.tags)) == bool(inv) else value
''')
# 11 map
rep(F,'''        errors = (CollectErrors if error == 'collect' else RaiseErrors)()
        with self.ctx(src=src, errors=errors):
            self._map(tags, unmapped)
            errors = self.ctx.errors
        return errors
''','''        errors = CollectErrors() if error == 'collect' else RaiseErrors()
        with self.ctx(errors=errors, src=src):
            self._map(tags, unmapped)
        return errors
''')
rep(F,'''        if src is None and self.ctx.src is not None:
            errors = self._nested_map(tags, unmapped, error)
        else:
            errors = self._root_map(src, tags, unmapped, error)
        if error == 'collect':
            return errors
        if errors:
            RaiseErrors()(*errors)
        return self
''','''        nested = self.ctx.src is not None and src is None
        errors = (
            self._nested_map(tags, unmapped, error) if nested else
            self._root_map(src, tags, unmapped, error)
        )
        if error != 'collect':
            if errors:
                RaiseErrors()(*errors)
            return self
        return errors
''')
rep(F,'''            for field in type(self).fields:
                if tags and not tags & set(field.tags.keys()):
                    continue
                value = field.map()
                if value not in IGNORE:
                    self[field.name] = value
            unmapped''','''            for field in self._selected(tags):
                value = field.map()
                if value not in IGNORE:
                    self[field.name] = value
            unmapped''')
rep(F,'''        for field in type(self).fields:
            if tags and not tags & set(field.tags.keys()):
                continue
            try:
                field.__delete__(self)
            except FieldError:
                pass
''','''        for field in self._selected(tags):
            self.pop(field.name, None)

    def _selected(self, tags):
        return [
            field for field in type(self).fields
            if not (tags and not tags & set(field.tags))
        ]
''')
rep(F,'''        path = []

        def _flatten(form):
            for field in type(form).fields:
                if field.name not in form:
                    continue
                value = form[field.name]
                if value in IGNORE:
                    continue
                if isinstance(value, Form):
                    path.append(field)
                    try:
                        for nested in _flatten(value):
                            yield nested
                    finally:
                        path.pop()
                    continue
                yield path + [field], value

        return _flatten(self)
''','''        def _flatten(form, path):
            for field in type(form).fields:
                value = form.get(field.name, NONE)
                if value in IGNORE:
                    continue
                below = path + [field]
                if not isinstance(value, Form):
                    yield below, value
                    continue
                for nested in _flatten(value, below):
                    yield nested

        return _flatten(self, [])
''')
# 13 hook
rep(F,'''        # register
        if self.func is None and args and callable(args[0]):
            func = args[0]
            if argspec(func) != self.func_spec:
                raise TypeError('{0} argspec does not match {1}'.format(
                    func.__name__, self.func_spec
                ))
            self.func = func
            parent = self.parent
            while isinstance(parent, Field) and parent.parent:
                parent = parent.parent
            return parent

        # invoke
        target = self.target
        if target is None:
            target = self.parent.ctx.form
        return self.func(target, *args, **kwargs)
''','''        if self.func is None and args and callable(args[0]):
            return self._register(args[0])
        target = self.parent.ctx.form if self.target is None else self.target
        return self.func(target, *args, **kwargs)

    def _register(self, func):
        if argspec(func) != self.func_spec:
            raise TypeError('{0} argspec does not match {1}'.format(func.__name__, self.func_spec))
        self.func = func
        parent = self.parent
        while isinstance(parent, Field):
            if not parent.parent:
                break
            parent = parent.parent
        return parent
''')
# __get__
rep(F,'''            if form is not getattr(self.ctx, 'parent', None):
                def is_form(frame):
                    return getattr(frame, 'parent', None) is form
                try:
                    with self.ctx.rewind(is_form):
                        return self.map()
                except self.ctx.RewindDidNotStop:
                    with self.ctx(form=form, parent=form, src=DefaultSource({})):
                        value = self.map()
            else:
                value = self()
''','''            if form is getattr(self.ctx, 'parent', None):
                value = self.map()
            else:
                try:
                    with self.ctx.rewind(lambda frame: frame.get('parent') is form):
                        return self.map()
                except self.ctx.RewindDidNotStop:
                    with self.ctx(form=form, parent=form, src=DefaultSource({})):
                        value = self.map()
''')
C='pilo/context.py'
rep(C,'''        for frame in reversed(self.stack):
            if k in frame:
                return frame[k]
        raise AttributeError(''','''        values = self.values_for(k)
        if values:
            return values[-1]
        raise AttributeError(''')
rep(C,'''        if frames is None:
            frame = self.stack.pop()
            if 'src' in frame and 'src_path' not in frame:
                self.src_path.pop()
        elif frames:
            if self.src_path is not None:
                for frame in frames:
                    if 'src_path' in frame:
                        break
                    if 'src' in frame:
                        self.src_path.append(parts.pop() if parts else frame.src)
            self.stack.extend(frames)
''','''        if frames is None:
            frame = self.stack.pop()
            if set(['src', 'src_path']) & set(frame) == set(['src']):
                del self.src_path[-1]
            return
        if self.src_path is not None:
            for frame in itertools.takewhile(lambda frame: 'src_path' not in frame, frames):
                if 'src' in frame:
                    self.src_path.append(parts.pop() if parts else frame.src)
        for frame in frames:
            self.stack.append(frame)
''')
rep(C,'import functools\n','import functools\nimport itertools\n')
rep(C,'''        for i, frame in enumerate(reversed(self.stack)):
            if stop(frame):
                depth = len(self.stack) - i
                break
        else:
            raise RewindDidNotStop()
        frames = self.stack[depth:]
        del self.stack[depth:]
''','''        depth = len(self.stack)
        while depth and not stop(self.stack[depth - 1]):
            depth -= 1
        if not depth:
            raise RewindDidNotStop()
        self.stack, frames = self.stack[:depth], self.stack[depth:]
''')
P='pilo/source/__init__.py'
rep(P,'''        if self.parts and self.parts[-1].value is not NOT_SET:
            return self.parts[-1].value

        for i, part in enumerate(reversed(self.parts)):
            if part.value is not NOT_SET:
                i, value = len(self.parts) - i, part.value
                break
        else:
            i, value = 0, self.root

        for part in self.parts[i:]:
            if value is NONE:
                break
            value = part.value = self.resolve(value, part)

        return value
''','''        known = len(self.parts)
        while known > 0 and self.parts[known - 1].value is NOT_SET:
            known -= 1
        value = self.parts[known - 1].value if known else self.root
        while value is not NONE and known < len(self.parts):
            part = self.parts[known]
            part.value = value = self.resolve(value, part)
            known += 1
        return value
''')
rep(P,'''        parts = []
        if self:
            parts = ['{0}'.format(self[0])]
            for part in self[1:]:
                if isinstance(part.key, six.integer_types):
                    part = '[{0}]'.format(part.key)
                elif isinstance(part.key, six.string_types):
                    part = '.' + part.key
                else:
                    part = '.{0}'.format(part.key)
                parts.append(part)
        return ''.join(parts)
''','''        text = ''
        for i, part in enumerate(self.parts):
            if i == 0:
                text = str(part)
            elif isinstance(part.key, six.integer_types):
                text += '[{0}]'.format(part.key)
            else:
                text += '.{0}'.format(part.key)
        return text
''')
rep(P,'''        for t in types:
            if t in self.parsers:
                return self.parsers[t]

            for mro_t in inspect.getmro(t):
                if mro_t in self.parsers:
                    self.parsers[t] = self.parsers[mro_t]
                    return self.parsers[t]
''','''        for t in types:
            for mro_t in [t] if t is None else inspect.getmro(t):
                if mro_t in self.parsers:
                    return self.parsers[mro_t]
''')
G='pilo/source/configparser.py'
rep(G,'''        self.sub_mappings = collections.defaultdict(dict)
        for option, value in self.config.items(section):
            m = re.match(pattern, option)
            if not m:
                continue
            self.sub_mappings[m.group('name')][m.group('key')] = value
''','''        self.sub_mappings = {}
        for option, value in self.config.items(section):
            m = re.match(pattern, option)
            if m:
                name, key = m.groups()
                self.sub_mappings.setdefault(name, {})[key] = value
''')
rep(G,'''        for k, v in six.iteritems(self.sub_mappings):
            yield k
        for k, v in self.config.items(self.section):
            yield k
''','''        return iter(list(self.sub_mappings) + self.config.options(self.section))
''')
U='pilo/source/union.py'
rep(U,'''        for path in paths:
            if not path.exists:
                continue
            if merge == 'first':
                if not path.is_null:
                    keys = path.mapping()
                    mappings.append((path, keys))
                break
            if path.is_null:
                continue
            keys = path.mapping()
            if not mappings:
                mappings.append((path, keys))
                continue
            if merge == 'combine':
                mappings.append((path, keys))
            elif merge == 'last':
                mappings = [(path, keys)]
''','''        present = [path for path in paths if path.exists]
        if merge == 'first':
            present = present[:1]
        mappings = [(path, path.mapping()) for path in present if not path.is_null]
        if merge == 'last':
            mappings = mappings[-1:]
''')
rep(U,'''        offset = 0
        for path, length in self.sequences:
            if key < offset + length:
                break
            offset += length
        else:
            raise IndexError(key)
        path = copy.copy(path)
        path.append(key - offset)
        return Join(self.src, [path])
''','''        for path, length in self.sequences:
            if key < length:
                path = copy.copy(path)
                path.append(key)
                return Join(self.src, [path])
            key -= length
        raise IndexError(key)
''')
D='pilo/source/default.py'
rep(D,'''        value = self._as_item(container, atom)
        if value is not NONE:
            return value
        value = self._as_alias(container, atom, depth)
        if value is not NONE:
            return value
        return self._as_attr(container, atom, call)
''','''        for attempt in (
            lambda: self._as_item(container, atom),
            lambda: self._as_alias(container, atom, depth),
            lambda: self._as_attr(container, atom, call),
        ):
            value = attempt()
            if value is not NONE:
                return value
        return NONE
''')
rep(D,'''        if isinstance(part.key, six.string_types):
            value = self._resolve(container, part.key, depth, call)
            if value is NONE:
                value = container
                for atom in part.key.split('.'):
                    value = self._resolve(value, atom, depth, call)
                    if value is NONE:
                        break
        else:
            value = self._resolve(container, part.key, depth)
        return value
''','''        if not isinstance(part.key, six.string_types):
            return self._resolve(container, part.key, depth)
        value = self._resolve(container, part.key, depth, call)
        if value is NONE:
            value = container
            atoms = part.key.split('.')
            while atoms and value is not NONE:
                value = self._resolve(value, atoms.pop(0), depth, call)
        return value
''')
M='pilo/source/mount.py'
rep(M,'''        if self.path is None:
            return [self.part]
        return [self.part] + self.path.parts
''','''        return [self.part] + (self.path.parts if self.path is not None else [])
''')
I='pilo/__init__.py'
rep(I,'''            for sub_cls in form_cls.__subclasses__():
                _map(sub_cls)
''','')
rep(I,'''            _map(field.parent)
''','''            pending = [field.parent]
            while pending:
                form_cls = pending.pop(0)
                _map(form_cls)
                pending = form_cls.__subclasses__() + pending
''')
