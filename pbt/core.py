"""The runner: generated cases, sharded over processes, judged by an oracle, shrunk on failure.

A property module (pbt/props/<id>.py) defines
    RULE    how cases are made and what makes one non-trivial (goes into the evidence)
    CASES   list of Case
    SCALE   multiplies the number of cases (optional)
A Case couples a hypothesis strategy of plain Python data (so that a counterexample can be written to a file and
replayed without hypothesis) with body(value, obs), which raises Violation when the code under test breaks the property.
"""
import ast
import hashlib
import json
import os
import random
import re
import signal
import sys
import tempfile
import time
import traceback

from pbt.tape import Taped, Tape

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VERIF_OUT', VERIF)  # Evidence and replays
HYPOTHESIS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
CASE_CPU_S = 120  # CPU seconds one generated case may use before it counts as not terminating
CASE_WALL_S = 240  # Seconds one generated case may take before it counts as stuck
UNREADABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError)


class Violation(AssertionError):
    """The code under test broke the property"""


class HarnessError(Exception):
    """Something is wrong with the check itself"""


def check(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def same(got, want, what):
    if got != want:
        raise Violation('%s:\n  got  %r\n  want %r' % (what, got, want))


class Obs(object):
    """What one shard saw"""

    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.keys = set()
        self.known = []
        self.samples = []
        self.sampled = {}  # Case name => number of non-trivial cases
        self.case = None

    def nontrivial(self, key=None, sample=None):
        """Call once per case that is non-trivial by the property's rule"""
        digest = hashlib.blake2b(('%s|%r' % (self.case, key)).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
        if digest not in self.keys:
            self.keys.add(digest)
            nb = self.sampled.get(self.case, 0)
            self.sampled[self.case] = nb + 1
            if nb % 16 == 0 and nb < 1600:
                self.samples.append((self.case, repr(key if sample is None else sample)[:400]))

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


class Case(object):

    def __init__(self, name, strategy, body, quick=300, thorough=None, examples=(), shards=None, tape=None):
        self.name = name
        self.tape = tape  # make(tape): drawn from random bytes without hypothesis, ten times faster. Replaces strategy.
        self.strategy = strategy  # Callable that returns a hypothesis strategy, or None: examples only
        self.body = body
        self.quick = quick  # Cases per shard
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = examples  # List of plain values, or callable returning them: tried first, split over shards
        self.shards = shards  # Number of shards that run it (all by default)


# ###############################################################################
# ONE SHARD
# ###############################################################################


def setup_paths():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if HYPOTHESIS not in sys.path:
        sys.path.append(HYPOTHESIS)  # Last: numpy & co stay those of the repository's environment


def from_repo(error):
    """Whether the code under test raised this error (or was running when it was raised)"""
    tb = error.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


class _Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Hang()


HANG = 'the code did not terminate within %d s of CPU time, or %d s' % (CASE_CPU_S, CASE_WALL_S)
SETUP = 'setup'


def prepare(prop):
    """Sets up what all cases need. Returns None or the message of the violation."""
    if not hasattr(prop, 'setup'):
        return None
    return judge(Case(SETUP, None, lambda value, obs: prop.setup()), None, None)


def judge(case, value, obs):
    """Runs one case. Returns None, or the message of the violation. Errors of the harness are raised."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    try:
        case.body(value, obs)
        return None
    except Violation as error:
        return str(error) or 'violated'
    except _Hang as error:
        if from_repo(error):
            return HANG
        raise HarnessError('case used more than %d s of CPU time, or %d s' % (CASE_CPU_S, CASE_WALL_S))
    except SystemExit as error:
        if from_repo(error):
            return 'the code ended the process on a valid input'
        raise
    except Exception as error:
        if type(error).__module__.startswith('hypothesis'):
            raise
        if from_repo(error):
            return 'the code raised %s on a valid input:\n%s' % (
                type(error).__name__, ''.join(traceback.format_exception(error))[-2500:])
        if isinstance(error, UNREADABLE):  # Never happens with answers of the right shape
            return 'the answer does not have the right shape:\n%s' % ''.join(traceback.format_exception(error))[-2500:]
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def known_findings(pid):
    """Listed inputs on which the unchanged code breaks the property: (case, input, what fails)"""
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'), encoding='utf-8') as reader:
        for line in reader:
            match = re.match(r'known: property=(\w+) case=(\w+) input=(.+?) => (.*)', line)
            if match is not None and match.group(1) == pid:
                yield match.groups()[1:]


def run_shard(prop, tier, seed, shard, nb_shards, only=None):
    """Returns (obs, failure or None); failure = dict(case, value, message)"""
    import hypothesis
    from hypothesis import HealthCheck, Phase
    obs = Obs()
    message = prepare(prop)
    if message is not None:
        return obs, {'case': SETUP, 'value': 'None', 'message': message}
    cases = [c for c in prop.CASES if only is None or c.name == only]
    if shard == 0:
        for name, value, what in known_findings(prop.__name__.split('.')[-1].upper()):
            for case in [c for c in cases if c.name == name]:
                if judge(case, ast.literal_eval(value), obs) is not None:
                    obs.known.append('%s: %s' % (value, what))
    for idx, case in enumerate(cases):
        if case.shards is not None and shard >= case.shards:
            continue
        obs.case = case.name
        examples = case.examples() if callable(case.examples) else case.examples
        for i, value in enumerate(examples):
            if i % nb_shards != shard:
                continue
            obs.evaluations += 1
            message = judge(case, value, obs)
            if message is not None:
                return obs, {'case': case.name, 'value': repr(value), 'message': message}
        nb = getattr(prop, 'SCALE', 1) * (case.quick if tier == 'quick' else case.thorough)
        if nb <= 0 or (case.strategy is None and case.tape is None):
            continue
        strategy = None if case.tape is not None else case.strategy()
        if case.tape is not None or isinstance(strategy, Taped):
            make, sizes = (case.tape, (24, 60, 160)) if strategy is None else (strategy.make, range(strategy.min_size, strategy.max_size + 1))
            failure = _run_tapes(case, make, sizes, nb, random.Random('%d/%d/%d' % (seed, shard, idx)), obs)
            if failure is not None:
                return obs, failure
            continue
        last = {}

        class _Failed(Exception):
            pass

        def test(value):
            if last.get('message') == HANG:  # Too slow to shrink
                raise _Failed()
            obs.evaluations += 1
            message = judge(case, value, obs)
            if message is not None:
                last['value'] = value
                last['message'] = message
                raise _Failed()

        wrapped = hypothesis.seed(seed * 1000003 + shard * 1009 + idx)(
            hypothesis.settings(max_examples=nb, database=None, deadline=None, print_blob=False,
                                report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                                phases=(Phase.generate, Phase.shrink))(
                hypothesis.given(strategy)(test)))
        try:
            wrapped()
        except Exception:
            if not last:
                raise
        if last:
            return obs, {'case': case.name, 'value': repr(last['value']), 'message': last['message']}
    return obs, None


def _run_tapes(case, make, sizes, nb, rng, obs):
    def _judge(data):
        obs.evaluations += 1
        value = make(Tape(data))
        return value, judge(case, value, obs)

    for _ in range(nb):
        data = rng.randbytes(rng.choice(sizes))
        value, message = _judge(data)
        if message is not None:
            data, value, message = _shrink(data, value, message, _judge)
            return {'case': case.name, 'value': repr(value), 'message': message}
    return None


def _shrink(data, value, message, judge_data, seconds=20):
    """A shorter tape, then smaller bytes, as long as the property is violated"""
    end = time.time() + seconds
    is_better = message != HANG
    while is_better and time.time() < end:
        is_better = False
        candidates = []
        size = len(data) // 2
        while size:
            candidates += [(0, size, start) for start in range(0, len(data) - size + 1, size)]
            size //= 2
        candidates += [(1, low, i) for i in range(len(data)) for low in (0, data[i] // 2, data[i] - 1) if 0 <= low < data[i]]
        for kind, arg, at in candidates:
            if time.time() >= end:
                break
            other = data[:at] + data[at + arg:] if kind == 0 else data[:at] + bytes([arg]) + data[at + 1:]
            other_value, other_message = judge_data(other)
            if other_message is not None and other_message != HANG:
                data, value, message = other, other_value, other_message
                is_better = True
                break
    return data, value, message


# ###############################################################################
# ALL SHARDS
# ###############################################################################


def load_prop(pid):
    import importlib
    return importlib.import_module('pbt.props.%s' % pid.lower())


def _child(pid, tier, seed, shard, nb_shards, path, only):
    code = 0
    try:
        setup_paths()
        prop = load_prop(pid)
        obs, failure = run_shard(prop, tier, seed, shard, nb_shards, only)
        result = {'evaluations': obs.evaluations, 'labels': obs.labels, 'keys': sorted(obs.keys),
                  'samples': obs.samples, 'failure': failure, 'known': obs.known}
    except BaseException:
        result = {'error': traceback.format_exc()}
    try:
        with open(path + '.tmp', 'w', encoding='utf-8', errors='backslashreplace') as writer:
            json.dump(result, writer)
        os.rename(path + '.tmp', path)
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        code = 3
    os._exit(code)


def run_property(pid, tier, seed, only=None, nb_shards=None):
    start = time.time()
    if nb_shards is None:
        nb_shards = max(1, min(8, int(os.environ.get('VERIF_SHARDS', '8'))))
    results = {}
    with tempfile.TemporaryDirectory(prefix='pbt_%s_' % pid) as scratch:
        os.environ['PBT_SCRATCH'] = scratch
        pids = {}
        for shard in range(nb_shards):
            path = os.path.join(scratch, 'shard%d.json' % shard)
            sys.stdout.flush()
            sys.stderr.flush()
            child = os.fork()
            if child == 0:
                os.setpgid(0, 0)
                log = os.open(os.path.join(scratch, 'shard%d.log' % shard), os.O_WRONLY | os.O_CREAT, 0o644)
                os.dup2(log, 1)
                os.dup2(log, 2)
                _child(pid, tier, seed, shard, nb_shards, path, only)
            pids[child] = (shard, path)
        failed = None
        while pids:
            child, _ = os.wait()
            if child not in pids:
                continue
            shard, path = pids.pop(child)
            try:
                with open(path, encoding='utf-8') as reader:
                    results[shard] = json.load(reader)
            except OSError:
                with open(os.path.join(scratch, 'shard%d.log' % shard), errors='replace') as reader:
                    results[shard] = {'error': 'shard ended without a result\n' + reader.read()[-3000:]}
            if results[shard].get('failure'):
                failed = results[shard]['failure']
                break
        for child in pids:  # A violation was found: the other shards are not needed any more
            try:
                os.killpg(child, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(child, signal.SIGKILL)
                except OSError:
                    pass
        for child in list(pids):
            try:
                os.waitpid(child, 0)
            except OSError:
                pass
    errors = [r['error'] for r in results.values() if 'error' in r]
    good = [r for r in results.values() if 'error' not in r]
    prop_rule = None
    try:
        setup_paths()
        prop_rule = _rule(pid)
    except Exception:
        pass
    labels = {}
    keys = set()
    samples = []
    for r in good:
        keys |= set(r['keys'])
        for name, n in r['labels'].items():
            labels[name] = labels.get(name, 0) + n
    by_case = {}
    for r in good:
        for case, sample in r['samples']:
            by_case.setdefault(case, []).append(sample)
    for case, items in by_case.items():
        step = max(1, len(items) // 4)
        samples.extend({'case': case, 'value': item} for item in items[::step][:4])
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in good),
            'distinct_nontrivial': len(keys),
            'rule': prop_rule or '',
            'samples': samples[:24],
            'classes': dict(sorted(labels.items())),
            'shards': nb_shards,
        },
        'wall_s': round(time.time() - start, 2),
        'violations': 1 if failed else 0,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', '%s.json' % pid), 'w', encoding='utf-8') as writer:
        json.dump(evidence, writer, indent=1, ensure_ascii=True)
        writer.write('\n')
    for finding in [finding for r in good for finding in r['known']]:
        print('KNOWN-FINDING: property=%s %s' % (pid, finding))
    if failed:
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        digest = hashlib.sha1((failed['case'] + failed['value']).encode('utf-8', 'replace')).hexdigest()[:10]
        replay = os.path.join(OUT, 'replays', '%s-%s.json' % (pid, digest))
        with open(replay, 'w', encoding='utf-8') as writer:
            json.dump({'property': pid, **failed, 'how': 'bash %s/run.sh replay %s' % (VERIF, replay)}, writer, indent=1)
        print('case %s, shrunk input: %s' % (failed['case'], failed['value'][:1500]))
        print(failed['message'][:4000])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if errors:
        print('ERROR of the check %s (%d shards):\n%s' % (pid, len(errors), errors[0][-6000:]))
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, evidence['coverage']['evaluations'], len(keys), evidence['wall_s']))
    return 0


def _rule(pid):
    """Reads RULE without importing the module (which would import the code under test)"""
    with open(os.path.join(VERIF, 'pbt', 'props', '%s.py' % pid.lower()), encoding='utf-8') as reader:
        for node in ast.parse(reader.read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'RULE':
                return ast.literal_eval(node.value)
    return None


def replay(path):
    with open(path, encoding='utf-8') as reader:
        saved = json.load(reader)
    setup_paths()
    with tempfile.TemporaryDirectory(prefix='pbt_replay_') as scratch:
        os.environ['PBT_SCRATCH'] = scratch
        prop = load_prop(saved['property'])
        message = prepare(prop)
        if message is None and saved['case'] != SETUP:
            case = [c for c in prop.CASES if c.name == saved['case']][0]
            obs = Obs()
            obs.case = case.name
            message = judge(case, ast.literal_eval(saved['value']), obs)
    if message is None:
        print('%s: the saved input passes' % saved['property'])
        return 0
    print(message)
    print('VIOLATION property=%s replay=%s' % (saved['property'], path))
    return 1
