"""Measures the checks with small generated changes of the code (in copies, never in /repo).
   python tools/mutate.py OUT.jsonl [--per-file N] [--workers N] [--files a,b] [--shards N] [--redo PREVIOUS.jsonl]
Each change is kept if the repository's stable tests still pass; the checks anchored to the file are then run on the copy.
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
TESTS = ['tests/test_labelled_data.py', 'tests/test_language_model_builder.py', 'tests/test_mkn_smoother.py', 'tests/test_sentencizer.py', 'tests/test_tokenizer.py', 'tests/test_token_context.py']
SKIP = {'scrappybara/__init__.py', 'scrappybara/exceptions.py'}
S = 'scrappybara/'
EXTRA = {S + 'syntax/transitions.py': 'C18 C19 C32 C35', S + 'config.py': 'C21 C31 C32 C08 C26 C35 C22 C24', S + 'normalization/suffixes.py': 'C16 C17 C24', S + 'syntax/dependencies.py': 'C20 C22 C24 C23 C18 C32 C35',
         S + 'syntax/tags.py': 'C22 C24 C16 C17 C32 C35', S + 'syntax/models.py': 'C35', S + 'syntax/node.py': 'C22 C24 C23 C26'}  # Files that no property is anchored to
COMPARE = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'sorted': 'list', 'reversed': 'list'}


# Functions that remember: written to the copy as scrappybara/_memory.py
MEMORY = '''import functools

KEEP = []


def plain(x):
    if isinstance(x, (str, int, float, bool, type(None))):
        return repr(x)
    if isinstance(x, (list, tuple, set, dict)):
        return type(x).__name__ + '(' + ','.join(plain(y) for y in x) + ')'
    KEEP.append(x)
    return '#%d' % id(x)


def memory(key):
    def make(is_method):
        def decorate(function):
            cache = {}

            @functools.wraps(function)
            def call(*args, **kwargs):
                own, rest = (plain(args[0]), args[1:]) if is_method else ('', args)
                k = key(own, [plain(a) for a in rest] + [n + plain(a) for n, a in kwargs.items()])
                if k not in cache:
                    cache[k] = function(*args, **kwargs)
                return cache[k]
            return call
        return decorate
    return make


shared = memory(lambda own, args: tuple(args))
case = memory(lambda own, args: (own,) + tuple(a.lower() for a in args))
prefix = memory(lambda own, args: (own,) + tuple((a[:12], len(a)) for a in args))
end = memory(lambda own, args: (own,) + tuple(a[-8:] for a in args))
first = memory(lambda own, args: (own,) + tuple(args[:-1]) if len(args) > 1 else (own, len(args and args[0] or '')))
last = memory(lambda own, args: (own,) + tuple(args[1:]) if len(args) > 1 else (own, sum(map(ord, args and args[0] or ''))))


def large(size):
    def make(is_method):
        def decorate(function):
            def cut(x):
                return (x[:size] if isinstance(x, (list, tuple, str)) else type(x)(list(x.items())[:size]) if isinstance(x, dict) else list(x)[:size]) if isinstance(x, (list, tuple, str, dict, type({}.values()))) and len(x) > size else x

            @functools.wraps(function)
            def call(*args, **kwargs):
                if is_method:
                    return function(args[0], *map(cut, args[1:]), **kwargs)
                return function(*map(cut, args), **kwargs)
            return call
        return decorate
    return make
'''


def limited(source):
    """Functions that ignore what comes after a limit"""
    return forgetful(source, ('large(100)',))


def forgetful(source, kinds=('shared', 'case', 'prefix', 'end', 'first', 'last')):
    """Functions that remember answers by a key that is too short"""
    lines = source.split('\n')
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line) + 1)
    out = []
    for node in ast.walk(ast.parse(source)):
        if isinstance(node, ast.FunctionDef) and node.name not in ('__init__', '__str__', '__repr__') and (node.args.args or node.args.vararg):
            a = starts[node.lineno - 1]
            indent = len(lines[node.lineno - 1]) - len(lines[node.lineno - 1].lstrip())
            is_method = bool(node.args.args) and node.args.args[0].arg == 'self'
            nb = len(node.args.args) + bool(node.args.vararg) - is_method
            if any(isinstance(d, ast.Attribute) for d in node.decorator_list):
                continue
            for kind in kinds if nb else [k for k in kinds if k == 'shared']:
                out.append((a, a, "%s@__import__('scrappybara._memory', fromlist=['x']).%s(%r)\n" % (' ' * indent, kind, is_method)))
    return out


def mutants(source):
    """List of (start, end, replacement) in characters"""
    tree = ast.parse(source)
    lines = source.split('\n')
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line) + 1)

    def pos(lineno, col):
        return starts[lineno - 1] + len(lines[lineno - 1].encode()[:col].decode())

    def span(node):
        return pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)

    def text(node):
        a, b = span(node)
        return source[a:b]

    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(id(node.body[0].value))
            docs.add(id(node.body[0]))
    out = []
    for node in ast.walk(tree):
        if id(node) in docs:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = span(node)
            out.append((a, b, '%s %s %s' % (text(node.left), COMPARE[type(node.ops[0])], text(node.comparators[0]))))
        elif isinstance(node, ast.BoolOp):
            a, b = span(node)
            out.append((a, b, (' or ' if isinstance(node.op, ast.And) else ' and ').join('(%s)' % text(v) for v in node.values)))
            for k in range(len(node.values)):
                rest = [v for i, v in enumerate(node.values) if i != k]
                out.append((a, b, (' and ' if isinstance(node.op, ast.And) else ' or ').join('(%s)' % text(v) for v in rest)))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            out.append((*span(node), '(%s)' % text(node.operand)))
        elif isinstance(node, ast.BinOp) and type(node.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            sign = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}[type(node.op)]
            out.append((*span(node), '%s %s %s' % (text(node.left), sign, text(node.right))))
            if isinstance(node.op, ast.Add):
                out.append((*span(node), text(node.left)))
                out.append((*span(node), text(node.right)))
        elif isinstance(node, ast.Constant):
            a, b = span(node)
            if node.value is True or node.value is False:
                out.append((a, b, str(not node.value)))
            elif isinstance(node.value, (int, float)):
                out.append((a, b, str(node.value + 1)))
                if node.value:
                    out.append((a, b, str(node.value - 1)))
            elif isinstance(node.value, str) and source[a:b][:2] in ("r'", 'r"'):
                raw = source[a:b]
                for m in re.finditer(r'(?<!\\)[+*?]|\{\d,\}|\\b|\\s\??|\|[^|()\[\]]+|\(\?[<!=]+', raw):
                    if m.group() in ('+', '*', '?'):
                        if raw[m.start() - 1] == '(':
                            continue
                        out.append((a, b, raw[:m.start()] + raw[m.end():]))
                    elif m.group().startswith('{'):
                        out.append((a, b, raw[:m.start()] + '{%d,}' % (int(m.group()[1]) + 1) + raw[m.end():]))
                    elif m.group().startswith('(?'):
                        swap = {'(?=': '(?!', '(?!': '(?=', '(?<=': '(?<!', '(?<!': '(?<='}.get(m.group())
                        if swap:
                            out.append((a, b, raw[:m.start()] + swap + raw[m.end():]))
                    else:
                        out.append((a, b, raw[:m.start()] + raw[m.end():]))
            elif isinstance(node.value, str) and node.value:
                out.append((a, b, repr(node.value + 'x' if node.value.isalpha() else '')))
        elif isinstance(node, ast.Attribute) and node.attr == 'I' and isinstance(node.value, ast.Name) and node.value.id == 're':
            out.append((*span(node), '0'))
        elif isinstance(node, ast.Name) and node.id in NAMES and isinstance(node.ctx, ast.Load):
            out.append((*span(node), NAMES[node.id]))
        elif isinstance(node, (ast.List, ast.Set, ast.Tuple)) and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load) and len(node.elts) > 1:
            for e in node.elts if len(node.elts) < 6 else random.sample(node.elts, 4):
                k = node.elts.index(e)
                a = span(e)[0] if k + 1 < len(node.elts) else span(node.elts[k - 1])[1]
                b = span(node.elts[k + 1])[0] if k + 1 < len(node.elts) else span(e)[1]
                if isinstance(node, ast.Tuple):
                    continue
                out.append((a, b, ''))
            if isinstance(node, ast.Tuple) and len(node.elts) == 2:
                a, b = span(node.elts[0])[0], span(node.elts[1])[1]
                out.append((a, b, '%s, %s' % (text(node.elts[1]), text(node.elts[0]))))
        elif isinstance(node, ast.Dict) and len(node.keys) > 1:
            for k in random.sample(range(len(node.keys) - 1), min(3, len(node.keys) - 1)):
                out.append((span(node.keys[k])[0], span(node.keys[k + 1])[0], ''))
        elif isinstance(node, ast.Slice):
            for part in (node.lower, node.upper):
                if part is not None:
                    out.append((*span(part), ''))
        elif isinstance(node, (ast.If, ast.IfExp)):
            out.append((*span(node.test), 'True'))
            out.append((*span(node.test), 'False'))
        elif isinstance(node, (ast.Continue, ast.Break)):
            out.append((*span(node), 'pass'))
        elif isinstance(node, (ast.Expr, ast.AugAssign)) or isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((*span(node), 'pass'))
        elif isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
            out.append((*span(node.value), 'None'))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args and node.func.attr in ('lower', 'strip', 'copy'):
            out.append((*span(node), text(node.func.value)))
        elif isinstance(node, ast.Call) and len(node.args) == 2 and not any(isinstance(x, ast.Starred) for x in node.args):
            a, b = span(node.args[0])[0], span(node.args[1])[1]
            out.append((a, b, '%s, %s' % (text(node.args[1]), text(node.args[0]))))
        elif isinstance(node, ast.comprehension):
            for cond in node.ifs:
                out.append((*span(cond), 'True'))
    good = []
    for a, b, rep in sorted(set(out)):
        new = source[:a] + rep + source[b:]
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                good.append((a, b, rep))
        except SyntaxError:
            pass
    return good


def run(task):
    name, a, b, rep, checks, shards = task
    where = tempfile.mkdtemp(prefix='mut_', dir='/tmp/mut')
    copy = os.path.join(where, 'repo')
    try:
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        path = os.path.join(copy, name)
        with open(path, encoding='utf-8') as reader:
            source = reader.read()
        with open(path, 'w', encoding='utf-8') as writer:
            writer.write(source[:a] + rep + source[b:])
        with open(os.path.join(copy, 'scrappybara', '_memory.py'), 'w') as writer:
            writer.write(MEMORY)
        line = source[:a].count('\n') + 1
        result = {'file': name, 'line': line, 'a': a, 'b': b, 'old': source[a:b], 'new': rep}
        environ = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', OMP_NUM_THREADS='1')
        tests = [t for t in TESTS if os.path.exists(os.path.join(copy, t))]
        try:
            done = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--rootdir=' + copy, '--timeout=60'] + tests, cwd=copy, env=environ,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            result['tests'] = done.returncode
        except subprocess.TimeoutExpired:
            result['tests'] = 99
        if result['tests'] == 0:
            result['status'] = 'survived'
            result['errors'] = []
            for check in checks:
                environ = dict(os.environ, VERIF_REPO=copy, VERIF_SHARDS=str(shards), VERIF_SEED='1', TMPDIR=where, VERIF_OUT=where)
                try:
                    done = subprocess.run(['bash', os.path.join(VERIF, 'run.sh'), check, 'quick'], env=environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    code = done.returncode
                except subprocess.TimeoutExpired:
                    code = 124
                if code == 1:
                    result['status'] = 'caught'
                    result['by'] = check
                    break
                if code != 0:
                    result['errors'].append((check, code, done.stdout.decode(errors='replace')[-600:]))
        else:
            result['status'] = 'tests'
        return result
    finally:
        shutil.rmtree(where, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('out')
    parser.add_argument('--per-file', type=int, default=40)
    parser.add_argument('--workers', type=int, default=7)
    parser.add_argument('--shards', type=int, default=1)
    parser.add_argument('--files', default='')
    parser.add_argument('--redo', default='')
    parser.add_argument('--seed', type=int, default=1)
    parser.add_argument('--checks', default='')
    parser.add_argument('--memory', action='store_true')
    parser.add_argument('--large', action='store_true')
    args = parser.parse_args()
    os.makedirs('/tmp/mut', exist_ok=True)
    import spec
    random.seed(args.seed)
    tasks = []
    files = subprocess.run(['git', '-C', REPO, 'ls-files', 'scrappybara/*.py'], stdout=subprocess.PIPE, encoding='utf-8').stdout.split()

    def checks_of(name):
        if args.checks:
            return args.checks.split(',')
        return EXTRA[name].split() if name in EXTRA else [p['id'] for p in spec.P if name in p['files'] and p['id'] not in spec.NOT_APPLICABLE]

    if args.redo:
        with open(args.redo) as reader:
            for item in map(json.loads, reader):
                if item['status'] == 'survived':
                    tasks.append((item['file'], item['a'], item['b'], item['new'], checks_of(item['file']), args.shards))
    else:
        for name in files:
            if name in SKIP or name.endswith('__init__.py') or args.files and not any(f in name for f in args.files.split(',')):
                continue
            with open(os.path.join(REPO, name), encoding='utf-8') as reader:
                found = (forgetful if args.memory else limited if args.large else mutants)(reader.read())
            chosen = random.sample(found, min(args.per_file, len(found)))
            print(name, len(found), 'of which', len(chosen), checks_of(name))
            tasks += [(name, a, b, rep, checks_of(name), args.shards) for a, b, rep in chosen]
    random.shuffle(tasks)
    print(len(tasks), 'changes', flush=True)
    with multiprocessing.Pool(args.workers) as pool, open(args.out, 'w') as writer:
        for k, result in enumerate(pool.imap_unordered(run, tasks)):
            writer.write(json.dumps(result) + '\n')
            writer.flush()


if __name__ == '__main__':
    main()
