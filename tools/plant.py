"""Makes and confirms the planted changes of tools/seeds.py (in copies, never in /repo).
   python tools/plant.py [--only ID,ID] [--workers N]
For each: patch.diff against /repo's HEAD, the stable tests pass on the copy, the demonstration passes without and fails
with the change, the check of the property (and of others, if it misses it) is run on the copy; the result goes to meta.json.
"""
import argparse
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= LANG=C.UTF-8
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace', **kw)


def plant(seed):
    sid = seed['id']
    where = tempfile.mkdtemp(prefix='plant_')
    copy = os.path.join(where, 'repo')
    out = os.path.join(VERIF, 'seeded', sid)
    try:
        sh(['git', 'clone', '-q', REPO, copy])
        for name in ('scrappybara/data',):  # Ignored files, if any
            sh(['cp', '-an', os.path.join(REPO, name), os.path.dirname(os.path.join(copy, name))])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8') as writer:
            writer.write(seed['demo'].lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w') as writer:
            writer.write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        demo = ['bash', os.path.join(out, 'demo.sh')]
        before = sh(demo, cwd=copy)
        for name, old, new in seed['edits']:
            path = os.path.join(copy, name)
            with open(path, encoding='utf-8') as reader:
                source = reader.read()
            if source.count(old) != 1:
                return sid, 'BAD', 'the text to change occurs %d times: %r' % (source.count(old), old)
            with open(path, 'w', encoding='utf-8') as writer:
                writer.write(source.replace(old, new))
        diff = sh(['git', '-C', copy, 'diff']).stdout
        # Lines of the original repository only
        base = sh(['git', '-C', copy, 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
        for name, old, new in seed['edits']:
            blame = sh(['git', '-C', copy, 'blame', '-s', '--abbrev=12', 'HEAD', '--', name]).stdout.split('\n')
            hunks = sh(['git', '-C', copy, 'diff', '-U0', '--', name]).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunks, re.M):
                first, nb = int(m.group(1)), int(m.group(2) or 1)
                for k in range(first, first + nb):
                    if not blame[k - 1].lstrip('^').startswith(base[:11]):
                        return sid, 'BAD', 'not an original line: %s' % blame[k - 1]
        with open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8') as writer:
            writer.write(diff)
        after = sh(demo, cwd=copy)
        if before.returncode != 0:
            return sid, 'BAD', 'the demonstration fails on the unchanged tree\n' + before.stdout[-1500:]
        if after.returncode == 0:
            return sid, 'BAD', 'the demonstration passes with the change'
        environ = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='')
        names = [n for n in sorted(os.listdir(os.path.join(copy, 'tests'))) if n.startswith('test_') and n.endswith('.py')
                 and n[5:-3] not in 'inflector language_model lemmatizer logic_pipeline pipeline standardizer'.split()]
        tests = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--rootdir=' + copy, '--timeout=120'] +
                   ['tests/' + n for n in names], cwd=copy, env=environ)
        if tests.returncode != 0:
            return sid, 'BAD', 'the tests fail\n' + tests.stdout[-1500:]
        checks = [seed['property']] + seed.get('also', [])
        caught = []
        said = ''
        for check in checks:
            environ = dict(os.environ, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick', VERIF_OUT=where)
            done = sh(['bash', os.path.join(VERIF, 'run.sh'), check, 'quick'], env=environ)
            if done.returncode == 1 and 'VIOLATION property=%s ' % check in done.stdout:
                caught.append(check)
            elif done.returncode != 0:
                said += '\n%s exits %d: %s' % (check, done.returncode, done.stdout[-1500:])
        with open(os.path.join(out, 'meta.json'), 'w', encoding='utf-8') as writer:
            json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['what'], 'caught_by': caught}, writer, indent=1)
            writer.write('\n')
        return sid, 'caught' if seed['property'] in caught else 'MISSED', 'by %s of %s%s' % (caught, checks, said)
    finally:
        shutil.rmtree(where, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('--only', default='')
    parser.add_argument('--workers', type=int, default=2)
    args = parser.parse_args()
    import seeds
    only = [o for o in args.only.split(',') if o]
    chosen = [s for s in seeds.SEEDS if not only or any(s['id'].startswith(o) for o in only)]
    assert len({s['id'] for s in seeds.SEEDS}) == len(seeds.SEEDS)
    with multiprocessing.Pool(args.workers) as pool:
        for sid, status, note in pool.imap_unordered(plant, chosen):
            print(sid, status, note, flush=True)


if __name__ == '__main__':
    main()
