import os, sys
exec(open(os.path.join(os.path.dirname(__file__), 'edits1.py')).read().split("F='pilo/fields.py'")[0])
F='pilo/fields.py'
rep(F,'''        for k in self:
            dst[k] = self[k]
        return dst''','''        for k, v in self.items():
            dst[k] = v
        return dst''')
rep(F,'''        with self.ctx(field=self, parent=self):
            value = self._map(value)
        if self.attach_parent and value is not None and value not in IGNORE:
            if hasattr(self.ctx, 'parent'):
                value.parent = weakref.proxy(self.ctx.parent)
            else:
                value.parent = None
        return value
''','''        with self.ctx(parent=self, field=self):
            mapped = self._map(value)
        if not self.attach_parent or mapped is None or mapped in IGNORE:
            return mapped
        parent = getattr(self.ctx, 'parent', None)
        mapped.parent = None if parent is None else weakref.proxy(parent)
        return mapped
''')
rep(F,'''        if form is None:
            return self
        if self.name in form:
            return form[self.name]
        if getattr(self.ctx, 'form', None) is None:
            if isinstance(getattr(type(form), 'src', None), Field):
                src = DefaultSource({})
            else:
                src = getattr(form, 'src', DefaultSource({}))
            with self.ctx(
                     form=form,
                     parent=form,
                     src=src,
                     errors=RaiseErrors()
                 ):
                value = self.map()
        else:
''','''        if form is None:
            return self
        try:
            return form[self.name]
        except KeyError:
            pass
        if getattr(self.ctx, 'form', None) is None:
            src = DefaultSource({})
            if not isinstance(getattr(type(form), 'src', None), Field):
                src = getattr(form, 'src', src)
            with self.ctx(src=src, errors=RaiseErrors(), form=form, parent=form):
                value = self.map()
        else:
''')
rep(F,'''        values = {}
            try:
                for name, field in six.iteritems(kwargs):
                    value = self.ctx.form
                    for attr in field.split('.'):
                        value = getattr(value, attr)
                        if value in IGNORE:
                            raise AttributeError('"{0}" has no value'.format(field))
                    values[name] = value
            except AttributeError as ex:
                self.ctx.errors.invalid(str(ex))
                return ERROR
            return fmt.format(**values)
''','''        def read(form, field):
                value = form
                for attr in field.split('.'):
                    value = getattr(value, attr)
                    if value in IGNORE:
                        raise AttributeError('"{0}" has no value'.format(field))
                return value

            try:
                values = dict((name, read(self.ctx.form, kwargs[name])) for name in kwargs)
            except AttributeError as ex:
                self.ctx.errors.invalid(str(ex))
                return ERROR
            return fmt.format(**values)
''')
rep(F,'''            for group in [name or self.name, 1]:
                try:
                    return match.group(group)
                except IndexError:
                    pass
            return NONE
''','''            group = name or self.name
            if group in pattern.groupindex:
                return match.group(group)
            return match.group(1) if pattern.groups else NONE
''')
rep(F,'''            if self.min_value is not None and value < self.min_value:
                self.ctx.errors.invalid('"{0}" must be >= {1}'.format(
                    value, self.min_value
                ))
                return False
            if self.max_value is not None and value > self.max_value:
                self.ctx.errors.invalid('"{0}" must be <= {1}'.format(
                    value, self.max_value
                ))
                return False
        return True
''','''            for bound, word, beyond in [
                (self.min_value, '>=', lambda: value < self.min_value),
                (self.max_value, '<=', lambda: value > self.max_value),
            ]:
                if bound is not None and beyond():
                    self.ctx.errors.invalid('"{0}" must be {1} {2}'.format(value, word, bound))
                    return False
        return True
''')
rep(F,'''        for i, spec in enumerate(formats):
            if spec == 'iso8601':
                try:
                    return iso8601.parse_date(value).date()
                except iso8601.ParseError as ex:
                    if i == len(formats) - 1:
                        self.ctx.errors.invalid(str(ex))
                        return ERROR

            else:
                try:
                    return datetime.datetime.strptime(value, spec).date()
                except ValueError as ex:
                    if i == len(formats) - 1:
                        self.ctx.errors.invalid(str(ex))
                        return ERROR
''','''        violation = None
        for spec in formats:
            try:
                if spec == 'iso8601':
                    parsed = iso8601.parse_date(value)
                else:
                    parsed = datetime.datetime.strptime(value, spec)
                return parsed.date()
            except (iso8601.ParseError, ValueError) as ex:
                violation = str(ex)
        if violation is not None:
            self.ctx.errors.invalid(violation)
            return ERROR
''')
rep(F,'''        if self._format is not None:
            parsed = time.strptime(value, self._format)
        else:
            self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
            return ERROR
        return parsed
''','''        if self._format is None:
            raise ValueError('Unknown format for value "{0}"'.format(value))
        return time.strptime(value, self._format)
''')
rep(F,'''        if self._format == 'iso8601':
            try:
                parsed = iso8601.parse_date(value)
            except iso8601.ParseError as ex:
                self.ctx.errors.invalid(str(ex))
                return ERROR
        elif self._format is not None:
            parsed = datetime.datetime.strptime(value, self._format)
        else:
            self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
            return ERROR
        return parsed
''','''        if self._format is None:
            self.ctx.errors.invalid('Unknown format for value "{0}"'.format(value))
            return ERROR
        if self._format != 'iso8601':
            return datetime.datetime.strptime(value, self._format)
        try:
            return iso8601.parse_date(value)
        except iso8601.ParseError as ex:
            self.ctx.errors.invalid(str(ex))
        return ERROR
''')
rep(F,'''            if self.min_length is not None and len(value) < self.min_length:
                self.ctx.errors.invalid('Must have {0} or more items'.format(
                    self.min_length
                ))
                return False
            if self.max_length is not None and len(value) > self.max_length:
                self.ctx.errors.invalid('Must have {0} or fewer items'.format(
                    self.max_length
                ))
                return False
        return True
''','''            message = None
            if self.min_length is not None and len(value) < self.min_length:
                message = 'Must have {0} or more items'.format(self.min_length)
            elif self.max_length is not None and len(value) > self.max_length:
                message = 'Must have {0} or fewer items'.format(self.max_length)
            if message:
                self.ctx.errors.invalid(message)
            return not message
        return True
''')
rep(F,'''        try:
            obj = six.moves.reduce(getattr, attr.split('.'), module)
        except AttributeError:
            raise TypeError('Unable to resolve {0}.{1}\\n'.format(
                module.__name__, attr
            ))
        return obj
''','''        obj = module
        for part in attr.split('.'):
            if not hasattr(obj, part):
                raise TypeError('Unable to resolve {0}.{1}\\n'.format(module.__name__, attr))
            obj = getattr(obj, part)
        return obj
''')
rep(F,'''        return value.count('\\n') > 0

''','''        return '\\n' in value

''')
rep(F,'''        value = self.ctx.src_path.primitive()
        if isinstance(value, uuid.UUID):
            return value
        return uuid.UUID(self.ctx.src_path.primitive(six.string_types[0]))
''','''        value = path.primitive()
        return value if isinstance(value, uuid.UUID) else uuid.UUID(path.primitive(six.string_types[0]))
''')
rep(F,'''        identity = self.probe(value)
        if identity not in self.types:
            # e.g. a class defined since
            self.types = Types.map(self)
        if identity not in self.types:
            raise ValueError('{0} value {1} invalid'.format(self, identity))
        return self.types[identity]

    def probe(self, value):
        if not self.types:
            self.types = Types.map(self)
        return self.types.probe(value)
''','''        self.types = Types.map(self)
        identity = self.types.probe(value)
        try:
            return self.types[identity]
        except KeyError:
            raise ValueError('{0} value {1} invalid'.format(self, identity))

    def probe(self, value):
        if not self.types:
            self.types = Types.map(self)
        return self.types.probe(value)
''')
rep(F,'''            if isinstance(args[0], Source):
                src = args[0]
                args = args[1:]
            else:
                if isinstance(args[0], (list, tuple)):
                    src = self._seq_source(args[0])
                else:
                    src = self._map_source(args[0])
                args = args[1:]
''','''            src, args = args[0], args[1:]
            if isinstance(src, (list, tuple)):
                src = self._seq_source(src)
            elif not isinstance(src, Source):
                src = self._map_source(src)
''')
rep(F,'''        aliases=dict(
                (field.name if field.src in (None, NONE) else field.src, i)
                for i, field in enumerate(type(self).fields)
            )
        )''','''        aliases=self._positions()
        )

    @classmethod
    def _positions(cls):
        positions = {}
        for i, field in enumerate(cls.fields):
            positions[field.name if field.src in (None, NONE) else field.src] = i
        return positions''')
rep(F,'''        if not directive:
            return
        if isinstance(directive, six.string_types):
            if directive == 'capture':
                directive = (String(), Field())
            elif directive == 'ignore':
                return
            else:
                raise ValueError(
                    'unmapped="{0}" invalid, should be "capture" or "ignore"'
                    .format(directive)
                )
        if isinstance(directive, Field):
            directive = (String(), directive)

        dict_field = Dict(*directive)
        dict_field.key_filter.attach(self)(lambda self, key: key not in self)
''','''        if not directive or directive == 'ignore':
            return None
        if directive == 'capture':
            directive = Field()
        if isinstance(directive, six.string_types):
            raise ValueError(
                'unmapped="{0}" invalid, should be "capture" or "ignore"'
                .format(directive)
            )
        key_field, value_field = (String(), directive) if isinstance(directive, Field) else directive
        dict_field = Dict(key_field, value_field)

        def key_filter(self, key):
            return key not in self

        dict_field.key_filter.attach(self)(key_filter)
''')
rep(F,'''            name = field
            if name in self:
                return True
            field = getattr(type(self), name, None)
            if not isinstance(field, Field):
                return False
''','''            if field in self:
                return True
            field = getattr(type(self), field, None)
            if not isinstance(field, Field):
                return False
''')
rep(F,'''        self.default = Hook(self, argspec(self._default))
        self.munge = Hook(self, argspec(self._munge))
        self.filter = Hook(self, argspec(self._filter))
        self.validate = Hook(self, argspec(self._validate))
''','''        for stage in ('default', 'munge', 'filter', 'validate'):
            setattr(self, stage, Hook(self, argspec(getattr(self, '_' + stage))))
''')
rep(F,'''            if isinstance(tags, dict):
                self.tag(**tags)
            elif isinstance(tags, (list, tuple, set, frozenset)):
                self.tag(*tags)
            else:
                self.tag(tags)
''','''            if isinstance(tags, dict):
                self.tags.update(tags)
            else:
                self.tag(*(tags if isinstance(tags, (list, tuple, set, frozenset)) else [tags]))
''')
rep(F,'''        self.tags.update(dict(zip(tags, [None] * len(tags))))
        self.tags.update(kwags)
''','''        self.tags.update(dict.fromkeys(tags), **kwags)
''')
J='pilo/source/json.py'
rep(J,'''        if isinstance(value, (float)):
            return value
        if isinstance(value, six.integer_types):
            try:
                return float(value)
            except OverflowError:
                raise self.error(field, '{0} is not a float'.format(value))
        if not self.strict:
            if isinstance(value, six.string_types):
                try:
                    return float(value)
                except ValueError:
                    pass
        raise self''','''        convertible = six.integer_types + (float,)
        if not self.strict:
            convertible += six.string_types
        if isinstance(value, convertible):
            try:
                return float(value)
            except (OverflowError, ValueError):
                pass
        raise self''')
rep(J,'''        try:
            if (
                not isinstance(part.key, six.string_types) or '.' not in part.key or
                (isinstance(container, dict) and part.key in container)
            ):
                return container[part.key]
            value = container
            for atom in part.key.split('.'):
                value = value[atom]
            return value
        except''','''        try:
            dotted = isinstance(part.key, six.string_types) and '.' in part.key
            if dotted and not (isinstance(container, dict) and part.key in container):
                for atom in part.key.split('.'):
                    container = container[atom]
                return container
            return container[part.key]
        except''')
P='pilo/source/__init__.py'
rep(P,'''        if isinstance(value, six.integer_types) and not isinstance(value, bool):
            pass
        elif isinstance(value, float):
            if not value.is_integer():
                raise self.error(path, '"{0}" is not an integer'.format(value))
            else:
                value = int(value)
        elif isinstance(value, six.string_types):
            try:
                value = int(value)
            except (ValueError, TypeError):
                raise self.error(path, '"{0}" is not an integer'.format(value))
        else:
            raise self.error(path, '"{0}" is not an integer'.format(value))
        return value
''','''        if not isinstance(value, bool):
            if isinstance(value, six.integer_types):
                return value
            if isinstance(value, float) and value.is_integer():
                return int(value)
            if isinstance(value, six.string_types):
                try:
                    return int(value)
                except ValueError:
                    pass
        raise self.error(path, '"{0}" is not an integer'.format(value))
''')
rep(P,'''            if value.lower() in ('0', 'f', 'false'):
                return False
            elif value.lower() in ('1', 't', 'true'):
                return True
''','''            words = {'0': False, 'f': False, 'false': False, '1': True, 't': True, 'true': True}
            if value.lower() in words:
                return words[value.lower()]
''')
M='pilo/source/mount.py'
rep(M,'''        for key, src in srcs.items():
            if isinstance(src, Source):
                continue
            if isinstance(src, dict) or src is None:
                srcs[key] = DefaultSource(src)
                continue
            raise TypeError(
                '{0}={1!r} is not None, dict or Source'.format(key, src)
            )
        super(MountSource, self).__init__()
        self.srcs = srcs
''','''        super(MountSource, self).__init__()
        self.srcs = {}
        for key in srcs:
            self.srcs[key] = self._source(key, srcs[key])

    @staticmethod
    def _source(key, src):
        if isinstance(src, Source):
            return src
        if src is None or isinstance(src, dict):
            return DefaultSource(src)
        raise TypeError('{0}={1!r} is not None, dict or Source'.format(key, src))
''')
I='pilo/__init__.py'
rep(I,'''        fields = {}
        for field in type_field.parent.fields:
            fields[field.name] = field.clone()
            if field is type_field:
                break
        else:
            raise ValueError(
                'No {0} in {1}'.format(type_field, type_field.parent)
            )
''','''        declared = type_field.parent.fields
        if not any(field is type_field for field in declared):
            raise ValueError('No {0} in {1}'.format(type_field, type_field.parent))
        last = [i for i, field in enumerate(declared) if field is type_field][0]
        fields = dict((field.name, field.clone()) for field in declared[:last + 1])
''')
C='pilo/source/configparser.py'
rep(C,'''    def resolve(self, container, part):
        try:
            if isinstance(container, six.string_types):
                container = Sequence(container)
            return container[part.key]
        except (KeyError, IndexError, TypeError):
            return NONE
''','''    def resolve(self, container, part):
        textual = isinstance(container, six.string_types)
        try:
            return (Sequence(container) if textual else container)[part.key]
        except (LookupError, TypeError):
            return NONE
''')
rep(C,'''        if '\\n' in value:
            self.values = [
                line.strip() for line in value.splitlines() if line.strip()
            ]
        else:
            self.values = shlex.split(value)
''','''        if '\\n' not in value:
            self.values = shlex.split(value)
            return
        lines = (line.strip() for line in value.splitlines())
        self.values = [line for line in lines if line]
''')
