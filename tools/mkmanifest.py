"""Writes MANIFEST.json: a check for each property that has a module in pbt/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (technique, what the oracle is)
HOW = dict(
    C01=('model-based property testing', 'an independent model of each conversion'),
    C02=('model-based property testing', 'an independent model of each constraint, values concentrated at the bounds'),
    C03=('model-based property testing over generated schemas', 'a recursive model of containers and nested forms'),
    C04=('model-based property testing over generated schemas', 'the model\'s error list, and faults planted by construction'),
    C05=('differential property testing of the three error modes', 'agreement of collect, raise and construct'),
    C06=('fuzzing with hostile inputs', 'no other exception, an unmodified and uncalled input, a repeatable outcome'),
    C07=('fault-injecting property testing', 'a snapshot of the context before and after, with an exception thrown at every hook call'),
    C08=('randomised schedule exploration of threads', 'the outcome of each thread running alone'),
    C09=('model-based property testing', 'a model of defaults and absence flags'),
    C10=('model-based property testing of generated hook pipelines', 'a model of the pipeline that predicts the exact call trace'),
    C11=('metamorphic and model-based property testing of generated reference graphs',
         'values of an acyclic reference graph, over random declaration orders'),
    C12=('stateful model-based testing', 'a dict model of each instance, compared after every step'),
    C13=('stateful model-based testing', 'a model of the frame stack and a walk of the source data'),
    C14=('differential property testing over source kinds', 'the outcome of mapping the plain dict'),
    C15=('model-based differential property testing', 'mapping of the data merged by an independent model'),
    C16=('differential property testing', 'mapping of each mounted source alone'),
    C17=('model-based property testing of generated configuration text', 'the data the text was written from'),
    C18=('model-based property testing of generated class hierarchies', 'a table of identities by construction'),
    C19=('model-based property testing of generated class hierarchies', 'a model of declaration order and inheritance; outcomes before and after'),
    C20=('model-based property testing', 'the leftover keys by construction, and the mapping without capture'),
    C21=('model-based property testing', 'a model of group matching'),
    C22=('model-based property testing', 'recursive models of copy, munge, filter and flatten'),
    C23=('round-trip and model-based property testing', 'values the text was rendered from by construction'),
    C24=('metamorphic property testing', 'idempotence of mapping'),
    C25=('model-based property testing of generated module trees', 'the objects and definitions the modules were written with'),
    C26=('model-based property testing', 'an independent model of native lookup'),
    C28=('model-based property testing of damaged declarations and calls',
         'the damage by construction, and a model of what is well-formed'),
    C29=('model-based differential property testing over generated trees of sources',
         'mapping of the data a tree stands for, by construction and an independent model of merging'),
    C27=('model-based property testing', 'a walk of the result against the schema'),
)
REASON = 'The check is still being built (property-based testing applies to it).'


def main():
    ids = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, missing = [], []
    for i in ids:
        if not os.path.exists(os.path.join(HERE, 'pbt', 'props', i.lower() + '.py')):
            missing.append(dict(property=i, reason=REASON))
            continue
        technique, oracle = HOW[i]
        checks.append(dict(
            property=i, quick_cmd='./run.sh ' + i, thorough_cmd='./run.sh {0} --tier thorough'.format(i),
            technique=technique, level='exploration',
            level_note='Random generation with shrinking against {0}. It holds on the cases generated (counted in '
                       'the evidence); it trusts the generator, the oracle and the interpreter.'.format(oracle)))
    out = dict(
        version=1,
        setup_cmd='/opt/venv/bin/python -W ignore -c "import sys; sys.dont_write_bytecode = True; '
                  'sys.path.insert(0, \'/repo\'); import pilo"',
        checks=checks, not_applicable=missing,
        notes='All checks run on /opt/venv/bin/python (the interpreter pilo works on) with the engine in pbt/engine.py; '
              'there are no hooks in /repo.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fo:
        json.dump(out, fo, indent=1)
        fo.write('\n')


main()
