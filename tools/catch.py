"""catch.py [--jobs N] [ids]: runs the check of each planted bug's property in a scratch copy of /repo that has the bug,
and writes CATCHES.md (which test of which check catches what, and at which case). Not a check."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    folder = os.path.join(HERE, 'seeded', name)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='catch-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.run(['git', '-C', repo, 'apply', os.path.join(folder, 'patch.diff')], check=True)
        env = dict(os.environ, PILO_REPO=repo, PBT_SHRINK_S='2', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([os.path.join(HERE, 'run.sh'), meta['property'], '--workers', '3'], env=env,
                           capture_output=True, text=True)
        m = re.search(r'^(C\d+/\w+): case (\d+)', p.stdout, re.M)
        hit = p.returncode == 1 and 'VIOLATION property=' + meta['property'] in p.stdout
        return name, meta, (m.group(1), int(m.group(2))) if hit and m else 'caught' if hit else None
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    jobs = 2
    if args[:1] == ['--jobs']:
        jobs, args = int(args[1]), args[2:]
    names = args or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    rows = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for name, meta, hit in pool.map(one, names):
            rows.append('| {0} | {1} | {2} | {3} |'.format(
                name, meta['property'], meta['needs'].replace('|', '\\|').replace('\n', ' '),
                'MISSED' if hit is None else hit if isinstance(hit, str) else '{0} (case {1})'.format(*hit)))
            print(rows[-1])
            sys.stdout.flush()
    if not args:
        with open(os.path.join(HERE, 'CATCHES.md'), 'w') as fo:
            fo.write('# Planted bugs and what catches them\n\nWritten by tools/catch.py (quick tier, seed 1). '
                     'The case is the one that failed first in its test.\n\n'
                     '| planted bug | property | what it needs | caught by |\n|---|---|---|---|\n')
            fo.write('\n'.join(rows) + '\n')


main()
