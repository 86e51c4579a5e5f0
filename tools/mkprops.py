"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [])))
F='pilo/fields.py'; S='pilo/source/__init__.py'; D='pilo/source/default.py'; U='pilo/source/union.py'
M='pilo/source/mount.py'; J='pilo/source/json.py'; G='pilo/source/configparser.py'; C='pilo/context.py'; I='pilo/__init__.py'

p('C01','Scalar fields coerce exactly, or reject with one error',
 'For every raw value, a String, Integer, Float, Decimal, Boolean or UUID field (alone, or as item of a list, tuple, mapping or nested form) either yields the one value of its own Python type that the raw value denotes, or rejects it with exactly one Invalid error at that location; an untyped Field yields the raw value itself. Integer takes integers, integral floats and integer text but never booleans or fractional numbers; Float takes integers, floats and numeric text; Decimal takes numbers and numeric text; Boolean takes booleans, integers and case-insensitively 0/1/f/t/false/true; String takes only text (from non-strict JSON, also the text of a number or boolean); UUID takes UUIDs and their text. Strict JSON sources do no conversion other than integer to float.',
 ['inputs'],'all raw values (every JSON type, text of every shape, big and special numbers, native Decimal/UUID), all field positions, native / JSON (strict and not) / config sources',
 'Tests use about ten hand-picked good scalars and one bad integer; the table of (field type x raw type x text shape x source) is unbounded.',
 [F,S,J],[('field parsing','pilo/fields.py: Field._compute and each _parse'),('primitive parsers','pilo/source/__init__.py: ParserMixin.as_*'),('JSON parsers','pilo/source/json.py: JsonSource.as_*')],['Form.map result and errors'])
p('C02','A value is accepted if and only if it meets every declared constraint',
 'After a mapping without errors every value that came from the source meets all constraints its field declares: length bounds, pattern (matched from the start of the text), alphabet and choices for strings, inclusive min/max for numbers, inclusive after/before for dates and times, length bounds for lists, required and maximum keys for mappings, and no null where nullable is false. Conversely a value that meets all of them is never rejected, whichever spelling (constructor keyword or chained call) declared the constraint. A violated constraint drops the field from the form and adds exactly one Invalid error at that location.',
 ['inputs','configurations'],'all constraint combinations and all values, in particular those on, just inside and just outside each bound',
 'Tests cover two string constraints and one numeric bound with single values far from the edge; off-by-one, wrong-side and ignored-constraint errors survive them.',
 [F],[('constraint checks','pilo/fields.py: String/Number/Date/Time/Datetime/List/Dict/Field._validate'),('declaration spellings','pilo/fields.py: constructors, Number.min/max/range, List.min/max/range, RangeMixin')],['Form.map result and errors'])
p('C03','Containers and nested forms map element by element, losing nothing',
 'A List yields exactly the mapped items of its source sequence in source order, a Tuple exactly its declared positions, a Dict exactly the mapped entries of its source mapping (minus keys its key filter refuses), and a SubForm exactly the form its own fields would map from that part of the source, at any nesting depth and size. List items and Dict entries that are absent, filtered or invalid are left out without disturbing their neighbours; a Tuple of the wrong length, and anything that is not a sequence or mapping where one is required (text is not a sequence), is one Invalid error - except that a List that allows a bare field maps such a value as its single item.',
 ['inputs','programs'],'all form schemas built from nested List/Tuple/Dict/SubForm over scalar fields, and all data for them',
 'Tests contain one or two fixed schemas per container, with at most four items and two levels.',
 [F,D],[('container parsing','pilo/fields.py: List/Tuple/Dict/SubForm._parse'),('nested form mapping','pilo/fields.py: Form._nested_map, Form._map'),('shape checks','pilo/source/default.py: DefaultSource.sequence/mapping')],['Form.map result and errors'])
p('C04','Collected errors are complete, exact and correctly located',
 'Mapping a form in collect mode returns, in field declaration (and source item) order, exactly one error for every missing required field and every value that is invalid at its location, and none for anything else, so the list is empty exactly when the whole input is acceptable. Each error is a Missing or an Invalid (of the classes the context gives for these, if it does) of the field, its text starts with the full source path of the offending value (dotted keys and [index] steps, prefixed by the source location if there is one), and it keeps reporting that path after the mapping is over.',
 ['inputs','programs'],'all form schemas (nested forms, lists, tuples, mappings) and all inputs with any number of faults in any positions',
 'The exception tests pin three fixed inputs on two schemas.',
 [F,S],[('error collection','pilo/fields.py: Errors, CollectErrors, FieldError/Missing/Invalid, Form._nested_map'),('path rendering','pilo/source/__init__.py: Path.__str__')],['list returned by Form.map','str(error)','error.path'])
p('C05','Collecting, raising and constructing agree on every input',
 'For any form class and any mapping input, building the form from the input (positionally or as keyword arguments) raises a form error exactly when collect mode reports errors, and then carries exactly those errors in the same order, in its list and in its message; raise mode also raises exactly then, with the same first error. When there are no errors, all of these produce the same form contents, and raise mode returns the form itself. What hooks report to the error context that is no field error is collected in its place like any other, and raised itself when no field error was reported with it.',
 ['inputs','programs'],'all form schemas and all mapping inputs',
 'Tests use one mode per test case and never compare them.',
 [F],[('modes','pilo/fields.py: Form.map, Form.__init__, RaiseErrors, CollectErrors, FormError')],['exceptions, return values'])
p('C06','Hostile input is handled cleanly and never modified',
 'Mapping any data built from JSON-like values and native dates, decimals and UUIDs - arbitrary types in arbitrary places, any mapping keys, any nesting, however unrelated to the form - ends in a populated form and/or a list of Missing/Invalid errors, never in another exception. It never modifies the input, never calls anything found in it, and mapping the same input again gives the same outcome.',
 ['inputs','programs'],'all data trees under a mapping root, all hook-free form schemas including unmapped capture and groups',
 'Tests only supply inputs of the expected shape.',
 [F,D,S],[('error conversion','pilo/fields.py: Field._compute'),('lookup','pilo/source/default.py: DefaultPath.resolve, _as_item, _as_attr'),('primitive parsers','pilo/source/__init__.py: ParserMixin')],['exceptions from Form.map; deep comparison of the input'])
p('C07','The mapping context is restored after every mapping, even a failing one',
 'Whatever a mapping does - succeed, report errors, raise in raise mode, evaluate fields on demand, map other forms from within hooks, or be aborted by any exception thrown from any hook at any point - afterwards the calling thread sees exactly the context variables and source path it had before. Mappings performed later, or by code that catches the exception further out, behave as if the failed one had never happened.',
 ['fault_sequences','programs','inputs'],'all schemas with hooks, all inputs, every hook invocation as fault point, all surrounding contexts',
 'No test raises from a hook or looks at the context afterwards.',
 [C,F],[('context stack','pilo/context.py: Context.push/restore/rewind/reset, Close'),('context users','pilo/fields.py: Field.map/_map/__get__, Form._root_map/_nested_map')],['pilo.ctx attributes before and after'])
p('C08','Concurrent mappings in different threads do not affect each other',
 'When several threads map the same form classes, or from the same source objects, at the same time, under any interleaving, each one gets exactly the result, the errors and the hook-visible context (form, variables, source path) it would get running alone. Nothing process-wide is left changed when they are done.',
 ['schedules','inputs'],'all interleavings of mappings at hook granularity, all inputs',
 'No test uses threads.',
 [C,F,I],[('thread-local context','pilo/context.py: Context, ctx'),('shared class-level caches','pilo/fields.py: Type.probe')],['per-thread results, warnings.filters'])
p('C09','Absent values follow defaults and absence flags exactly',
 'A field whose source value is absent, ignored or filtered out takes its default: a literal as is, a callable or default hook evaluated afresh for every mapping, nothing at all if optional, and otherwise exactly one Missing error. Defaults, including falsy ones, are used as they are (no conversion or validation), and are never used when a source value is present and kept, even an invalid or null one. With the ignore-default context flag literal and callable defaults are not applied, and with the ignore-missing flag absent fields raise no error, so that together they map only what the source provides, at every nesting level.',
 ['inputs','configurations'],'all default kinds, ignore lists, presence patterns, nesting depths, and the four settings of the two context flags',
 'Tests use three defaults on the happy path and never the flags.',
 [F,C],[('default resolution','pilo/fields.py: Field._default, _map, _filter, options'),('flags','pilo/context.py: root frame')],['Form.map result and errors'])
p('C10','Field hooks run once, in documented order, on the right values',
 'Mapping a field runs its stages in the order compute (or, without a compute hook, parse of the located source value), translation, munge, filter, validate, with the default stage only when the value is absent or dropped; each hook replaces its own stage (munge, filter and validate act after the built-in part, which a subclass of the field may override like any other stage), is called at most once per mapping with the form being mapped and the value left by the previous stages, and later stages are skipped once the value is dropped or in error. Parse is not called for absent or null values, translation maps exactly the declared values, and what the form stores is what the stages produced; a value passed to the map of a field takes the place of what compute gives. A function whose parameters do not fit the stage is refused with a TypeError when it is declared.',
 ['programs','inputs'],'all subsets of hooks with all outcomes (pass, change, drop, error), all field types and positions, all inputs',
 'Tests use munge twice and compute once, always passing.',
 [F],[('pipeline','pilo/fields.py: Field._map, _compute, _munge, _filter, _validate'),('hooks','pilo/fields.py: Hook.__call__')],['recorded hook calls, Form.map result'])
p('C11','Fields can read other fields regardless of declaration order',
 'A hook or format string that reads other fields of its form gets their fully mapped values, whether those fields are declared before or after it, however long the chain of references and however deep the form is nested in lists, mappings and other forms. The result of a mapping therefore does not depend on the order in which the fields of a form are declared, and a format that refers to a field without a value is one Invalid error rather than text with a placeholder.',
 ['programs','inputs'],'all acyclic reference graphs between fields, all declaration orders, nesting positions and inputs',
 'One test has one reference with one order at one depth.',
 [F,C],[('on-demand evaluation','pilo/fields.py: Field.__get__'),('rewinding','pilo/context.py: Context.rewind/restore'),('format','pilo/fields.py: String.format')],['Form.map result'])
p('C12','A form instance behaves like a dict of its fields over any history',
 'Over any sequence of mappings (full, by tags, with and without reset), attribute reads, writes and deletes on one form instance, the form contains exactly: for each field the value last mapped or assigned and not since deleted or reset. A mapping changes only the selected fields for which it produced a value; reset first clears exactly the selected fields; reading a field that has no value yields and stores its default, or raises, and never disturbs other fields.',
 ['histories','inputs'],'all operation sequences on a form instance',
 'Every test maps a fresh instance once and compares.',
 [F],[('descriptor protocol','pilo/fields.py: Field.__get__/__set__/__delete__'),('mapping a form','pilo/fields.py: Form.map, _map, _reset, has')],['dict contents after every step'])
p('C13','Source paths and context variables follow stack discipline',
 'After any sequence of pushing sources, keys and variables, popping, rewinding to an earlier frame and restoring, and resetting, the context reports exactly the variables of the innermost frame defining them, and the source path reports exactly the pushed keys: its text, existence, null-ness, value and shape are those of walking the source data along these keys, and asking any of this never changes later answers. A path below something that does not exist does not exist. A path whose keys are edited in place (set, inserted, deleted, extended, copied) reports what its current keys lead to.',
 ['histories','inputs'],'all operation sequences on the context over all nested source data',
 'The path tests walk one fixed tree in one order, and never rewind or reset.',
 [C,S,D],[('context stack','pilo/context.py: Context'),('path','pilo/source/__init__.py: Path.value, insert, __delitem__, __str__')],['pilo.ctx, pilo.ctx.src_path'])
p('C14','The same data maps identically from every kind of source',
 'A form maps the same JSON-compatible data to the same contents and the same errors (kinds, order and paths) whether the data is given as a dict, keyword arguments, a native source, JSON text, a source class written by the user, a positional sequence of its fields, or a union of one source. The exceptions are the conversions that sources define differently: text from non-text, and booleans from text.',
 ['inputs','programs'],'all form schemas and all JSON-compatible data',
 'Each test uses one source kind; the JSON source test does not even run on this interpreter.',
 [S,D,J,U,F],[('source implementations','pilo/source/*.py'),('source selection','pilo/fields.py: Form.__init__, _root_map, _map_source, _seq_source')],['Form.map result and errors per source'])
p('C15','Union sources merge mappings and sequences as configured',
 'Mapping from a union gives what mapping from the merged data would give: at the top level all keys of all sources are visible; below it a mapping or sequence present in several sources is taken from the first, from the last, or combined (mappings key by key recursively, sequences concatenated in source order), as configured for mappings and sequences separately, with merging below the configured depth falling back to first; and for a scalar present in several the earliest source that remains in the merge and has no null there wins. Mixed kinds that would have to be merged are Invalid, and the sources are never modified. Walking a path of the union by key or (also negative) index, reading each mapping and sequence on the way, answers as the merged data would, and a merge mode that is not one of these is refused.',
 ['inputs','configurations'],'all lists of source trees (nulls only for scalars), merge modes and merge depths',
 'One test merges two fixed two-level sources.',
 [U],[('merging','pilo/source/union.py: Mapping, Sequence, Join, UnionPath')],['Form.map result and errors'])
p('C16','Mounted sources appear under their mount key and nowhere else',
 'A form mapped from a set of mounted sources sees under each mount key exactly what it would see mapping that source alone, and nothing under other keys. Values and errors are the same as from the separate sources, with error paths naming the mount and the path within it.',
 ['inputs','programs'],'all sets of mounted sources and all forms for them',
 'There is no test for mounts at all.',
 [M],[('mount path','pilo/source/mount.py: MountPath'),('mount source','pilo/source/mount.py: MountSource')],['Form.map result and errors'])
p('C17','Configuration sources expose exactly the options of the configuration',
 'A form mapped from a configuration (object, text or file; one section, or all sections as nested mappings) sees exactly its options: each option as its text converted by the field, option values as sequences (one item per non-blank line if the value has several lines, else shell words), options written name[key] as a mapping called name, and declared defaults only for options that are absent. With whitespace preserved, an option of several lines yields its own lines with their relative indentation. Errors name the file, section and option.',
 ['inputs','configurations'],'all configurations without interpolation, all section/default settings',
 'The only configuration test asserts that nothing exists at the paths it tries.',
 [G],[('sections and options','pilo/source/configparser.py: Mapping, SectionMapping, Sequence, ConfigPath'),('construction','pilo/source/configparser.py: ConfigSource')],['Form.map result and errors'])
p('C18','Polymorphic fields select exactly the class that declares the identity',
 'Casting by a type field, and mapping a polymorphic sub-form anywhere in a form, select exactly the class of the hierarchy that declares the identity found (or computed from earlier fields) in the data, and the result equals mapping that class directly. Unknown, missing or malformed identities are reported as one Invalid error at the sub-form (a ValueError from casting) and never select a class; fields declared after the type field do not influence the choice, whatever their values. Classes defined after a cast are found like any other, and an identity that is null (or absent, where optional) selects no class: the sub-form takes its default; the value of a type field is the one identity its class declares; a type field with none or several has no value (a TypeError).',
 ['programs','inputs'],'all class hierarchies in which each identity is declared by one class, all data',
 'Tests cast within two two-class hierarchies and never use the polymorphic sub-form.',
 [F,I],[('identity map','pilo/__init__.py: Types.map/for_field/probe'),('selection','pilo/fields.py: Type.cast/probe, PolymorphicSubForm')],['type and contents of the result'])
p('C19','Form classes declare fields in order, inherit them, and stay independent',
 'The fields of a form class are exactly those it and its bases (forms or plain mixins) declare, in order of declaration, an override in the body of a form class taking the position of what it overrides (also where a class in between had removed that) and a non-field override removing the field; mapping and errors follow that order. Defining, mapping or casting subclasses, or deriving constants from an inherited field, never changes how a base or sibling class maps.',
 ['programs','inputs'],'all class hierarchies with overrides and mixins',
 'No test overrides a field and checks order or the base class.',
 [F],[('registration','pilo/fields.py: FormMeta, Field.attach, CreatedCountMixin'),('derivation','pilo/fields.py: Field.clone, constant')],['Form.fields names, key order, errors'])
p('C20','Unmapped capture keeps exactly the leftover source keys',
 'With unmapped capture (the keyword, a value field, or a key and value field pair; for the root form, a sub-form or polymorphic sub-form) the form additionally contains every source key for which it has no value of its own, with its raw or value-field-mapped value, and the declared fields are mapped exactly as without capture; hooks of the capturing fields run with the form that captures. With capture off, no key other than the declared fields ever appears. Nested forms are only affected by their own setting.',
 ['inputs','programs'],'all forms, inputs, directives and nesting positions',
 'One test with one input.',
 [F],[('capture','pilo/fields.py: Form._unmapped, Dict._parse, key_filter, SubForm/PolymorphicSubForm')],['Form.map result'])
p('C21','Groups collect exactly the matching source keys',
 'A group maps, in source order, every key of the enclosing mapping that equals one of its names or matches one of its patterns, through the field of the first alternative that matches, to a (key, match, value) entry, with pattern captures available. Invalid values are reported at their key and left out, other keys are never touched, and the default (an empty list if none is given) is used only if no key matches.',
 ['inputs','programs'],'all groups of literal and pattern alternatives and all source mappings',
 'The group test asserts nothing about the result.',
 [F],[('group','pilo/fields.py: Group._match, _parse, __init__')],['Form.map result and errors'])
p('C22','Form copy, munge, filter and flatten preserve exactly the right values',
 'Copying a form gives an equal form of the same class, and setting or deleting fields of either does not affect the other; rewriting a form with a function visits each field of the form and of forms nested directly or in sequences exactly once and keeps exactly the values the function returns; filtering by tags keeps exactly the fields with (or, inverted, without) any of the tags at every level; flattening yields exactly the non-form leaf values of nested forms with their field paths in declaration order. None of them modifies the original.',
 ['inputs','programs'],'all populated forms, tag assignments and rewrite functions',
 'No test calls any of them.',
 [F],[('form utilities','pilo/fields.py: Form.copy, munge, filter, flatten')],['results and the original'])
p('C23','Dates and times parse by their formats or are rejected',
 'A date, time or datetime field turns text into exactly the value that its format (for dates, the first matching of several formats; for dates and datetimes also iso8601) denotes, passes native values of its type through unchanged, and rejects text that matches no format, or any text if it has no format, with one Invalid error - never a null or a wrong value. Formatting a value with the field and mapping the text back gives the same value to the precision of the format.',
 ['inputs','configurations'],'all dates/times, formats, format lists and texts',
 'One iso8601 value whose result is not checked.',
 [F],[('temporal parsing','pilo/fields.py: Date/Time/Datetime._parse and format')],['Form.map result and errors'])
p('C24','Mapping is idempotent: a mapped form maps to itself',
 'For hook-free forms whose fields use their own names and whose defaults meet their constraints, mapping the result of a successful mapping again - as form, as dict, as native source or through a copy - succeeds and yields an equal form. Mapping the same input with a second instance, or after any other mapping, yields equal contents.',
 ['inputs','programs','histories'],'all such schemas and inputs',
 'The clone test does this once for one input.',
 [F,D],[('mapping','pilo/fields.py: Form.map, field parsers accepting native values')],['Form.map result'])
p('C25','Code fields load exactly the named or given code, or report an error',
 'A code field given module:attribute text (with dotted modules and attributes) yields exactly that object; given multi-line source text it yields a module containing exactly the definitions that executing the source produces; a non-text value is passed through. Anything that cannot be imported, resolved, compiled or executed is one Invalid error, and loading never changes other modules.',
 ['inputs'],'all importable names in generated module trees and all small programs, valid and faulty',
 'There is no test for code fields.',
 [F],[('code loading','pilo/fields.py: Code._parse, load, compile')],['Form.map result and errors'])
p('C26','Native lookup finds the value that the source key denotes',
 'In a native source a field finds the item with its literal key if there is one; else an alias for the key at the top level; else a public data attribute; else what its dotted key denotes step by step in the same way; and with a trailing () the result of calling what the key denotes. Names of built-in container methods and keys listed as ignored count as absent, an envelope field without source key sees its whole enclosing mapping, and a literal key always wins over every other reading.',
 ['inputs','configurations'],'all keys (dotted, call, method names), all trees of mappings, sequences and attribute objects, all aliases and ignores',
 'Tests use plain identifiers as keys and two envelope forms.',
 [D,S,F],[('lookup','pilo/source/default.py: DefaultPath.resolve, _resolve, _as_item, _as_alias, _as_attr'),('resolve stage','pilo/fields.py: Field._resolve')],['Form.map result'])
p('C27','Attached sub-forms know exactly the form they belong to',
 'A plain or polymorphic sub-form field of a form that is declared with attach_parent gives every form it maps a parent that is the very instance holding the field, at every nesting level, whichever way the mapping reaches the field (in order, or read on demand by another field) and also when the instance or another one is mapped again. Null and absent sub-forms stay null and absent, and without attach_parent no parent is set.',
 ['inputs','programs'],'all nestings of sub-form fields, inputs with nulls, absences and errors, and repeated mappings',
 'No test uses attach_parent.',
 [F],[('attachment','pilo/fields.py: Field.map, Field.__get__')],['Form.map result'])
p('C28','Declarations and calls that cannot work are refused where they are made',
 'A tuple over anything but a sequence of fields (TypeError), a tuple that allows a bare field although a field after its first has no default (ValueError), a list without an item field, a sub-form without a form class, and a group with an alternative - however deep in lists of alternatives - that is neither a field with its own source key nor a (key, field) pair (ValueError) are refused where they are declared; so are mapping a form from something that is neither a source, a mapping, a list nor a tuple (ValueError) and asking a form whether it has something that is neither a name nor a field (TypeError). A refused call leaves the form, the context and later mappings as if it had not been made, wherever it is made. What is declared without such a fault (also from anonymous forms made of fields) is taken, whichever way it is written, and maps as declared; a form has no name that is neither a key nor a field of it.',
 ['programs','inputs'],'all tuples, lists and groups built from fields and other objects, all arguments, surrounding contexts and positions of the calls',
 'No test makes a declaration or call that should be refused.',
 [F],[('declarations','pilo/fields.py: Tuple/List/Group.__init__'),('calls','pilo/fields.py: Form._root_map, Form.has')],['exceptions from constructors, Form.map and Form.has','Form.map result'])
p('C29','Sources made of sources map like the data they stand for',
 'Unions, mounts and other sources can be put in each other in any way - unions of unions (each with its own merge rules, applied to what its members give), unions of mounts, mounts of unions and of mounts, plain values mounted - and a form maps such a source to the contents and errors it gets from the data the source stands for: for a mount a mapping of its keys to what is mounted there, for a union the merge of its members. Errors name the path as the outermost source writes it (each mount its key, and then what is mounted there), and walking a path, reading each mapping and sequence on the way, answers as that data would, again and again. No source is modified.',
 ['inputs','configurations','programs'],'all trees of unions, mounts and leaves (dicts, native, JSON, user-written sources), all merge rules, all forms and data (nulls only for scalars)',
 'No test puts a union or a mount in another source.',
 [U,M,S],[('union of paths','pilo/source/union.py: UnionPath, Join, Mapping, Sequence'),('mount path','pilo/source/mount.py: MountPath')],['Form.map result and errors','Source.path()'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as fo:
    for x in P: fo.write(json.dumps(x)+'\n')
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)', x['statement']))
    if n>3: print('too many sentences', x['id'], n)
