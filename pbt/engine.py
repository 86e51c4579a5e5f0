"""
A small property-based testing engine (choice-sequence based, in the manner of
Hypothesis/minithesis) for the interpreter pilo runs on.

- Every random decision of a case is an integer choice drawn through `Data`; a case is a
  pure function of its choice sequence (and of the code under test).
- Case i of test t of a run with seed s uses its own generator seeded by (s, property, t, i),
  so results do not depend on how cases are spread over processes.
- A failing case is shrunk on its choice sequence; the shrunk sequence is the replay file.
- Every case runs in a fresh thread, so that thread-local state of the code under test cannot
  leak from one case into the next.
"""
import ast
import collections
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback

REPO = os.environ.get('PILO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = float(os.environ.get('PBT_HANG_S') or 120)
SHRINK_S = float(os.environ.get('PBT_SHRINK_S') or 40)

threading.stack_size(32 * 1024 * 1024)


class Violation(Exception):
    """The code under test broke the property."""


class Discard(Exception):
    """The case is outside the domain (used rarely; generators construct)."""


class Overrun(Exception):
    """Too many choices."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Data(object):
    """Source of choices of one case."""

    MAX = 60000

    def __init__(self, prefix=(), rng=None):
        self.prefix = prefix
        self.rng = rng
        self.choices = []
        self.notes = []
        self.labels = []
        self.keys = []

    # -- primitives

    def n(self, hi):
        """An integer in 0..hi; 0 is the simplest."""
        i = len(self.choices)
        if i >= self.MAX:
            raise Overrun()
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > hi:
                v = hi
        elif self.rng is None:
            v = 0
        elif hi <= 0:
            v = 0
        else:
            v = self.rng.randint(0, hi)
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.n(hi - lo)

    def bool(self):
        return self.n(1) == 1

    def p(self, num, den=100):
        """True with probability num/den; False is the simplest."""
        return self.n(den - 1) >= den - num

    def choice(self, seq):
        return seq[self.n(len(seq) - 1)]

    def weighted(self, *pairs):
        """pairs of (weight, value); the first is the simplest."""
        total = sum(w for w, _ in pairs)
        r = self.n(total - 1)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError()

    def size(self, lo=0, hi=8):
        """A length: mostly small, sometimes near hi; 0 simplest."""
        k = self.n(9)
        if k < 7:
            return self.int(lo, min(hi, lo + 3)) if hi > lo else lo
        if k < 9:
            return self.int(lo, hi)
        return min(hi, lo + self.n(hi - lo))

    def list(self, gen, lo=0, hi=8):
        return [gen() for _ in range(self.size(lo, hi))]

    def sample(self, seq, k):
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.n(len(pool) - 1)))
        return out

    def shuffled(self, seq):
        return self.sample(seq, len(seq))

    # -- reporting

    def note(self, name, value):
        self.notes.append((name, value))

    def label(self, name):
        self.labels.append(name)

    def nontrivial(self, key):
        """Marks the case as non-trivial; `key` identifies it."""
        self.keys.append(key)


# -- constants of the code under test, used as inputs (a fuzzing dictionary)

_mined = None


def mined():
    global _mined
    if _mined is None:
        ints, strs = set(), set()
        for base, dirs, files in os.walk(os.path.join(REPO, 'pilo')):
            dirs.sort()
            for name in sorted(files):
                if not name.endswith('.py'):
                    continue
                try:
                    with open(os.path.join(base, name), encoding='utf8') as fo:
                        tree = ast.parse(fo.read())
                except (SyntaxError, ValueError):
                    continue
                docs = set()
                for node in ast.walk(tree):
                    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                        docs.add(id(node.value))
                for node in ast.walk(tree):
                    if not isinstance(node, ast.Constant) or id(node) in docs:
                        continue
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and abs(v) < 10 ** 12:
                        ints.update((v - 1, v, v + 1, -v))
                    elif isinstance(v, float) and v == v and abs(v) < 10 ** 12:
                        ints.update((int(v), int(v) + 1))
                    elif isinstance(v, str) and len(v) <= 24:
                        strs.add(v)
                    elif isinstance(v, bytes) and len(v) <= 24:
                        strs.add(v.decode('latin1'))
        sizes = sorted(i for i in ints if 4 <= i <= 300)
        _mined = (sorted(ints), sorted(strs), sizes)
    return _mined


def mined_int(d):
    return d.choice(mined()[0] or [0])


def mined_str(d):
    return d.choice(mined()[1] or [''])


def mined_size(d, cap=300):
    sizes = [s for s in mined()[2] if s <= cap]
    return d.choice(sizes) if sizes else d.int(0, min(cap, 12))


# -- running one case


class Outcome(object):

    __slots__ = ('status', 'message', 'data')

    def __init__(self, status, message, data):
        self.status, self.message, self.data = status, message, data


def _in_repo(tb):
    root = os.path.join(os.path.realpath(REPO), 'pilo') + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _run_here(fn, data):
    try:
        fn(data)
    except Violation as ex:
        return Outcome('violation', str(ex), data)
    except (Discard, Overrun):
        return Outcome('discard', None, data)
    except BaseException as ex:
        tb = sys.exc_info()[2]
        text = ''.join(traceback.format_exception(type(ex), ex, tb))
        if _in_repo(tb):
            return Outcome(
                'violation',
                'unexpected {0} from the code under test: {1}\n{2}'.format(
                    type(ex).__name__, ex, text[-3000:]),
                data)
        if isinstance(ex, (AttributeError, TypeError, LookupError, ValueError, AssertionError)) and \
                not isinstance(ex, HarnessError):
            # something the code under test made lacks what it is known to have
            return Outcome(
                'violation',
                'an outcome that cannot be read, {0}: {1}\n{2}'.format(type(ex).__name__, ex, text[-3000:]), data)
        return Outcome('harness', text, data)
    return Outcome('ok', None, data)


class Hang(Exception):
    pass


def run_case(fn, data, timeout=HANG_S):
    box = []

    def target():
        box.append(_run_here(fn, data))

    t = threading.Thread(target=target)
    t.daemon = True
    t.start()
    t.join(timeout)
    if not box:
        raise Hang()
    return box[0]


def seed_for(seed, prop, test, i):
    h = hashlib.sha256('{0}/{1}/{2}/{3}'.format(seed, prop, test, i).encode()).digest()
    return int.from_bytes(h[:8], 'big')


# -- shrinking


def shrink(fn, choices, budget=3000, seconds=None):
    """Greedy shrinking of a failing choice sequence. Returns (choices, message, data)."""
    end = time.time() + (SHRINK_S if seconds is None else seconds)
    calls = [0]
    best = [None, None, None]
    cache = set()

    def key(c):
        return (len(c), c)

    def attempt(c):
        c = list(c)
        tc = tuple(c)
        if tc in cache:
            return False
        if calls[0] >= budget or time.time() > end:
            return False
        cache.add(tc)
        calls[0] += 1
        try:
            out = run_case(fn, Data(prefix=c), 10)
        except Hang:
            return False
        if out.status != 'violation':
            return False
        used = out.data.choices
        if best[0] is None or key(used) < key(best[0]):
            best[0], best[1], best[2] = list(used), out.message, out.data
            return True
        return False

    if not attempt(choices):
        return None
    improved = True
    while improved and calls[0] < budget and time.time() < end:
        improved = False
        # delete blocks
        for k in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best[0]) - k
            while i >= 0:
                cur = best[0]
                if i + k <= len(cur):
                    if attempt(cur[:i] + cur[i + k:]):
                        improved = True
                    elif i > 0 and cur[i - 1] > 0 and attempt(
                            cur[:i - 1] + [cur[i - 1] - 1] + cur[i + k:]):
                        improved = True
                i -= 1 if k <= 8 else k // 2
        # zero blocks
        for k in (16, 8, 4, 2, 1):
            i = len(best[0]) - k
            while i >= 0:
                cur = best[0]
                if i + k <= len(cur) and any(cur[i:i + k]):
                    if attempt(cur[:i] + [0] * k + cur[i + k:]):
                        improved = True
                i -= k
        # lower single choices
        i = len(best[0]) - 1
        while i >= 0:
            cur = best[0]
            if i < len(cur) and cur[i] > 0:
                lo, hi = 0, cur[i]
                while lo < hi:
                    mid = (lo + hi) // 2
                    cur = best[0]
                    if i >= len(cur):
                        break
                    if attempt(cur[:i] + [mid] + cur[i + 1:]):
                        improved = True
                        hi = mid
                    else:
                        lo = mid + 1
            i -= 1
    return best[0], best[1], best[2]


# -- running a property


def short(value, limit=1500):
    try:
        text = repr(value)
    except Exception as ex:  # a sample is never worth an error
        text = '<{0}>'.format(type(ex).__name__)
    return text if len(text) <= limit else text[:limit] + '...'


def _hash(key):
    if not isinstance(key, str):
        key = short(key, 4000)
    return int.from_bytes(hashlib.blake2b(key.encode('utf8', 'backslashreplace'), digest_size=8).digest(), 'big')


def _worker(prop, tests, seed, k, n_workers):
    res = dict(evaluations=0, discards=0, labels={}, keys=[], samples=[], failure=None,
               harness=None, per_test={})
    labels = collections.Counter()
    keys = set()
    for name, fn, cases in tests:
        done = 0
        for i in range(k, cases, n_workers):
            data = Data(rng=random.Random(seed_for(seed, prop, name, i)))
            try:
                out = run_case(fn, data)
            except Hang:
                res['failure'] = dict(
                    test=name, index=i, choices=list(data.choices), hang=True,
                    message='the case did not end within {0} s'.format(HANG_S),
                    notes=[(a, short(b)) for a, b in data.notes])
                break
            done += 1
            res['evaluations'] += 1
            if out.status == 'discard':
                res['discards'] += 1
                continue
            if out.status == 'harness':
                res['harness'] = '{0} case {1}: {2}'.format(name, i, out.message)
                break
            for lab in data.labels:
                labels[lab] += 1
            if data.keys:
                keys.add(_hash(name + repr(data.keys)))
            if data.keys and len(res['samples']) < 12 and (i // n_workers) % 7 == 3:
                res['samples'].append(dict(
                    test=name, case=[[a, short(b, 600)] for a, b in data.notes]))
            if out.status == 'violation':
                res['failure'] = dict(
                    test=name, index=i, choices=list(data.choices), message=out.message,
                    notes=[(a, short(b)) for a, b in data.notes])
                break
        res['per_test'][name] = done
        if res['failure'] or res['harness']:
            break
    res['labels'] = dict(labels)
    res['keys'] = list(keys)
    return res


def _parallel(prop, tests, seed, n_workers):
    if n_workers == 1:
        return [_worker(prop, tests, seed, 0, 1)]
    pipes = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(n_workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                res = _worker(prop, tests, seed, k, n_workers)
                payload = json.dumps(res).encode('utf8', 'backslashreplace')
                with os.fdopen(w, 'wb') as fo:
                    fo.write(payload)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        pipes.append((pid, r))
    results = []
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as fo:
            payload = fo.read()
        os.waitpid(pid, 0)
        if not payload:
            raise HarnessError('a worker died')
        results.append(json.loads(payload.decode('utf8')))
    return results


def write_replay(prop, failure, seed):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    body = dict(property=prop, seed=seed, **failure)
    text = json.dumps(body, indent=1)
    name = '{0}-{1}-{2}.json'.format(
        prop, failure['test'], hashlib.sha256(text.encode('utf8', 'backslashreplace')).hexdigest()[:10])
    path = os.path.join(folder, name)
    with open(path, 'w') as fo:
        fo.write(text)
    return path


def run_property(mod, tier, seed, n_workers, scale=1.0, only=None):
    prop = mod.PROP
    start = time.time()
    tests = []
    for t in mod.TESTS:
        name, fn, quick, thorough = t
        if only and name not in only:
            continue
        cases = quick if tier == 'quick' else thorough
        tests.append((name, fn, max(1, int(cases * scale)) if cases > 1 else cases))
    results = _parallel(prop, tests, seed, n_workers)
    harness = [r['harness'] for r in results if r['harness']]
    order = [t[0] for t in tests]
    failures = sorted(
        (r['failure'] for r in results if r['failure']),
        key=lambda f: (order.index(f['test']), f['index']))
    labels = collections.Counter()
    keys = set()
    per_test = collections.Counter()
    samples = []
    for r in results:
        labels.update(r['labels'])
        keys.update(r['keys'])
        per_test.update(r['per_test'])
    by_test = collections.OrderedDict((t[0], []) for t in tests)
    for r in results:
        for s in r['samples']:
            by_test[s['test']].append(s)
    for name in by_test:
        samples.extend(by_test[name][:2])
    evaluations = sum(r['evaluations'] for r in results)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(keys),
            rule=mod.RULE,
            samples=samples[:12],
            per_test=dict(per_test),
            classes=dict(sorted(labels.items())),
            discarded=sum(r['discards'] for r in results),
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=0.0,
        violations=0,
    )
    code = 0
    if failures:
        f = failures[0]
        fn = dict((t[0], t[1]) for t in tests)[f['test']]
        if not f.get('hang') and SHRINK_S > 0:
            shrunk = shrink(fn, f['choices'])
            if shrunk:
                f = dict(test=f['test'], index=f['index'], choices=shrunk[0], message=shrunk[1],
                         notes=[(a, short(b)) for a, b in shrunk[2].notes])
        path = write_replay(prop, f, seed)
        evidence['violations'] = len(failures)
        print('{0}/{1}: case {2}'.format(prop, f['test'], f['index']))
        for a, b in f['notes']:
            print('  {0}: {1}'.format(a, b))
        print('  -> ' + f['message'].replace('\n', '\n     '))
        print('VIOLATION property={0} replay={1}'.format(prop, path))
        code = 1
    elif harness:
        print('HARNESS ERROR in {0}:\n{1}'.format(prop, harness[0]), file=sys.stderr)
        code = 2
    evidence['wall_s'] = round(time.time() - start, 2)
    if code != 2:
        folder = os.path.join(VERIF, 'evidence')
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, prop + '.json'), 'w') as fo:
            json.dump(evidence, fo, indent=1)
    return code, evidence


def replay(mod, path):
    with open(path) as fo:
        f = json.load(fo)
    fn = dict((t[0], t[1]) for t in mod.TESTS)[f['test']]
    try:
        out = run_case(fn, Data(prefix=f['choices']))
    except Hang:
        print('VIOLATION property={0} replay={1}'.format(mod.PROP, path))
        return 1
    for a, b in out.data.notes:
        print('  {0}: {1}'.format(a, short(b)))
    print(out.status, out.message or '')
    if out.status == 'violation':
        print('VIOLATION property={0} replay={1}'.format(mod.PROP, path))
        return 1
    return 0 if out.status != 'harness' else 2
