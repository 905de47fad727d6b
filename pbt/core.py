"""Driver: Hypothesis generates JSON cases, a Jython worker executes them
against /repo's flatland and judges them with an independent oracle.

One run of a check = several shards (processes), each with its own Hypothesis
seed derived from VERIF_SEED and its own Jython worker.  The number of cases is
fixed per tier, never a time budget, so a run is a pure function of the code
and the seed.
"""
import argparse
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FLATLAND_REPO', '/repo')
JYLIB = '/opt/jylib'
JAR = '/usr/share/java/jython.jar'
CASE_TIMEOUT = 90
GENS = ['flat', 'scalars', 'containers', 'tree', 'validation', 'schema',
        'markup', 'misc', 'sharing', 'general']


class HarnessError(Exception):
    pass


class Prop(object):
    """One property's check: a set of modes, each a strategy with a weight."""

    def __init__(self, id, rule, modes, quick=6000, thorough=120000,
                 assumptions=(), quick_shards=6, fixed=None):
        self.id = id
        self.rule = rule
        self.modes = modes          # [(mode name, share, strategy thunk)]
        self.quick = quick
        self.thorough = thorough
        self.quick_shards = quick_shards
        self.assumptions = list(assumptions)
        self.fixed = fixed          # thunk -> [(mode, case)] always run


def load_props():
    props = {}
    for name in GENS:
        path = os.path.join(HERE, 'pbt', 'gens', name + '.py')
        if not os.path.exists(path):
            continue
        mod = importlib.import_module('pbt.gens.' + name)
        for p in mod.PROPS:
            props[p.id] = p
    return props


# --------------------------------------------------------------------------
# worker


class WorkerDied(Exception):
    pass


class WorkerTimeout(Exception):
    pass


class Worker(object):
    def __init__(self, heap='700m'):
        env = dict(os.environ)
        env.pop('JAVA_TOOL_OPTIONS', None)
        env.pop('_JAVA_OPTIONS', None)
        env.pop('JYTHONSTARTUP', None)
        env.update(LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
                   JYTHONPATH='%s:%s:%s' % (os.path.join(HERE, 'harness'),
                                            REPO, JYLIB))
        self.err = tempfile.TemporaryFile()
        home = os.path.dirname(os.path.dirname(
            os.path.realpath('/usr/bin/jython')))
        cmd = ['java', '-Xmx' + heap, '-Xss4m', '-XX:+UseSerialGC',
               '-XX:TieredStopAtLevel=1', '-XX:CICompilerCount=1',
               '-Xshare:auto', '-jar', JAR,
               '-Dpython.home=' + home,
               '-Dpython.cachedir.skip=true',
               '-B', os.path.join(HERE, 'harness', 'worker.py')]
        self.proc = subprocess.Popen(
            cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, env=env, cwd=HERE, bufsize=0)
        self.buf = b''
        hello = self._read(180)
        if not hello.get('ready'):
            raise HarnessError('worker did not start: %r' % (hello,))
        self.count = 0

    def _stderr(self):
        try:
            self.err.seek(0)
            return self.err.read().decode('utf8', 'replace')[-3000:]
        except Exception:
            return ''

    def _read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise WorkerTimeout()
            ready, _, _ = select.select([fd], [], [], left)
            if not ready:
                continue
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                raise WorkerDied(self._stderr())
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode('ascii'))

    def call(self, msg, timeout):
        data = json.dumps(msg).encode('ascii') + b'\n'
        try:
            self.proc.stdin.write(data)
        except (BrokenPipeError, OSError):
            raise WorkerDied(self._stderr())
        self.count += 1
        return self._read(timeout)

    def close(self):
        try:
            self.proc.kill()
        except Exception:
            pass
        try:
            self.proc.wait(10)
        except Exception:
            pass


class Runner(object):
    """Runs cases, restarting the worker as needed, keeping its history."""

    def __init__(self, pid):
        self.pid = pid
        self.worker = None
        self.history = []

    def fresh(self):
        self.close()
        self.worker = Worker()
        self.history = []

    def close(self):
        if self.worker is not None:
            self.worker.close()
            self.worker = None

    def run(self, mode, case, timeout=CASE_TIMEOUT):
        """-> result dict.  Hangs and deaths are retried on a fresh worker."""
        for attempt in (0, 1):
            if self.worker is None:
                self.fresh()
            try:
                self.history.append((mode, case))
                res = self.worker.call(
                    {'id': self.pid, 'mode': mode, 'case': case},
                    timeout * (1 + attempt))
            except (WorkerTimeout, WorkerDied) as exc:
                kind = type(exc).__name__
                detail = str(exc)
                self.close()
                if attempt == 0:
                    continue
                return {'fail': 'the case did not finish (%s) %s' % (
                    'no answer within %d s' % (timeout * 2)
                    if kind == 'WorkerTimeout' else 'worker died', detail),
                    'hang': True, 'labels': [], 'nt': True}
            if 'harness' in res:
                raise HarnessError(res['harness'])
            return res


# --------------------------------------------------------------------------
# shard


class PropertyViolated(AssertionError):
    pass


class Stop(KeyboardInterrupt):
    pass


def shard_seed(seed, pid, mode, shard):
    h = hashlib.sha256(('%d/%s/%s/%d' % (seed, pid, mode, shard)).encode())
    return int.from_bytes(h.digest()[:8], 'big')


def clip(obj, limit=1600):
    text = json.dumps(obj, ensure_ascii=True)
    if len(text) <= limit:
        return obj
    return text[:limit] + '...'


def corpus(pid):
    """Shrunk cases that failed once, as [(mode, case)]: run before the
    generated ones."""
    path = os.path.join(HERE, 'corpus', pid + '.jsonl')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf8') as fh:
        return [(c['mode'], c['case']) for c in map(json.loads, fh)]


def run_shard(prop, tier, seed, shard, nshards, total, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60
    from hypothesis.configuration import set_hypothesis_home_dir
    set_hypothesis_home_dir(os.path.join(os.path.dirname(out), 'hypothesis'))

    runner = Runner(prop.id)
    stats = {'evaluations': 0, 'nt': set(), 'labels': {}, 'samples': [],
             'violation': None, 'modes': {}}

    def record(mode, case, res):
        stats['evaluations'] += 1
        stats['modes'][mode] = stats['modes'].get(mode, 0) + 1
        for label in res.get('labels', ()):
            key = mode + ':' + label
            stats['labels'][key] = stats['labels'].get(key, 0) + 1
        if res.get('nt'):
            blob = json.dumps([mode, case], sort_keys=True).encode()
            h = hashlib.sha256(blob).hexdigest()[:20]
            if h not in stats['nt']:
                stats['nt'].add(h)
                n = len(stats['nt'])
                # early cases are tiny; keep a few spread over the run
                if n in (5, 40, 200, 700) and len(stats['samples']) < 8:
                    stats['samples'].append({'mode': mode,
                                             'case': clip(case)})

    def violated(mode, case, msg):
        stats['violation'] = {'mode': mode, 'case': case, 'message': msg}

    try:
        if shard == 0:
            first = corpus(prop.id)
            if prop.fixed is not None:
                first += list(prop.fixed())
            for mode, case in first:
                res = runner.run(mode, case)
                record(mode, case, res)
                if res.get('fail'):
                    violated(mode, case, res['fail'])
                    raise Stop()
        share = float(sum(m[1] for m in prop.modes))
        for mode, weight, thunk in prop.modes:
            n = max(1, int(total * weight / share / nshards))
            failing = {}

            def test(case):
                res = runner.run(mode, case)
                record(mode, case, res)
                if res.get('fail'):
                    failing['case'] = case
                    failing['msg'] = res['fail']
                    if res.get('hang'):
                        failing['hang'] = True
                        raise Stop()
                    raise PropertyViolated(res['fail'])

            wrapped = given(thunk())(test)
            wrapped = settings(
                max_examples=n, database=None, deadline=None,
                report_multiple_bugs=False, print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck))(wrapped)
            wrapped = hypothesis.seed(
                shard_seed(seed, prop.id, mode, shard))(wrapped)
            try:
                wrapped()
            except (PropertyViolated, Stop):
                pass
            except HarnessError:
                raise
            except BaseException as exc:
                # Flaky: the verdict depended on what ran before
                if not failing or isinstance(exc, (SystemExit, MemoryError)):
                    raise
            if failing:
                violated(mode, failing['case'], failing['msg'])
                if not failing.get('hang'):
                    confirm(runner, stats['violation'])
                raise Stop()
    except Stop:
        pass
    finally:
        runner.close()
    stats['nt'] = sorted(stats['nt'])
    with open(out, 'w') as fh:
        json.dump(stats, fh)


def confirm(runner, violation):
    """Make the replay self-contained.

    If the shrunk case does not fail by itself in a new process, the failure
    depends on what that process did before: replay the whole history and then
    cut it down by halves.
    """
    history = list(runner.history)
    last = (violation['mode'], violation['case'])

    def fails(prefix):
        runner.fresh()
        for mode, case in prefix:
            runner.run(mode, case)
        res = runner.run(*last)
        return res.get('fail')

    msg = fails([])
    if msg:
        violation['message'] = msg
        return
    while history and history[-1] == last:
        history.pop()
    deadline = time.monotonic() + 120
    if not fails(history):
        violation['message'] += \
            ' (observed once; did not recur when its history was replayed)'
        violation['history'] = history[-200:]
        return
    n = 2
    while len(history) > 1 and time.monotonic() < deadline:
        size = max(1, len(history) // n)
        for i in range(0, len(history), size):
            cand = history[:i] + history[i + size:]
            if fails(cand):
                history, n = cand, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(history), n * 2)
    violation['history'] = history


# --------------------------------------------------------------------------
# parent


def clean_stale():
    """Compiled Jython classes left in the tree must not shadow the source."""
    for base, dirs, files in os.walk(os.path.join(REPO, 'flatland')):
        for f in files:
            if f.endswith('$py.class'):
                try:
                    os.unlink(os.path.join(base, f))
                except OSError:
                    pass


def replay_path(pid, violation):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(violation, sort_keys=True)
    name = '%s-%s.json' % (pid, hashlib.sha256(blob.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as fh:
        json.dump(dict(violation, property=pid), fh, indent=1, sort_keys=True)
    return path


def do_replay(pid, path):
    with open(path) as fh:
        v = json.load(fh)
    runner = Runner(pid)
    runner.fresh()
    try:
        for mode, case in v.get('history', ()):
            runner.run(mode, case)
        res = runner.run(v['mode'], v['case'])
    finally:
        runner.close()
    if res.get('fail'):
        print(res['fail'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay of %s: the property held' % path)
    return 0


def known_findings():
    """[(property, signature)] from known-findings.txt."""
    found = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            line = line.strip()
            if line.startswith('finding:'):
                found.append(line[len('finding:'):].strip())
    return found


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--examples', type=int)
    ap.add_argument('--out')
    args = ap.parse_args(argv)
    try:
        return _main(args)
    except HarnessError as exc:
        sys.stderr.write('harness error: %s\n' % exc)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def _main(args):
    props = load_props()
    if args.id == 'setup':
        return setup(props)
    if args.id not in props:
        raise HarnessError('unknown property %r' % args.id)
    prop = props[args.id]
    if args.replay:
        return do_replay(prop.id, args.replay)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    total = args.examples or (prop.thorough if tier == 'thorough'
                              else prop.quick)
    if args.shard is not None:
        run_shard(prop, tier, args.seed, args.shard, args.shards, total,
                  args.out)
        return 0
    started = time.time()
    clean_stale()
    nshards = args.shards or (8 if tier == 'thorough' else prop.quick_shards)
    scratch = tempfile.mkdtemp(prefix='flverif-')
    procs = []
    try:
        for i in range(nshards):
            out = os.path.join(scratch, '%d.json' % i)
            log = open(os.path.join(scratch, '%d.log' % i), 'wb')
            cmd = [sys.executable, os.path.join(HERE, 'check.py'), prop.id,
                   '--tier', tier, '--seed', str(args.seed),
                   '--shard', str(i), '--shards', str(nshards),
                   '--examples', str(total), '--out', out]
            env = dict(os.environ, PYTHONHASHSEED='0')
            procs.append((subprocess.Popen(
                cmd, cwd=HERE, env=env, stdout=log,
                stderr=subprocess.STDOUT, start_new_session=True),
                out, log.name))
            log.close()
        results, errors, violation = [], [], None
        pending = list(procs)
        while pending:
            for item in list(pending):
                proc, out, log = item
                rc = proc.poll()
                if rc is None:
                    continue
                pending.remove(item)
                if rc == 0 and os.path.exists(out):
                    with open(out) as fh:
                        res = json.load(fh)
                    results.append(res)
                    if res['violation'] and violation is None:
                        violation = res['violation']
                else:
                    with open(log, errors='replace') as fh:
                        errors.append('shard exited %s: %s' % (
                            rc, fh.read()[-3000:]))
            if violation is not None:
                break
            time.sleep(0.05)
    finally:
        for proc, _, _ in procs:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                proc.wait(20)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    if errors and violation is None:
        raise HarnessError('\n'.join(errors))
    write_evidence(prop, tier, args.seed, results, violation,
                   time.time() - started)
    for line in known_findings():
        if line.startswith('property=%s ' % prop.id):
            print('KNOWN-FINDING: ' + line)
    n = sum(r['evaluations'] for r in results)
    if violation is not None:
        path = replay_path(prop.id, violation)
        print(violation['message'])
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    print('%s: held on %d cases (%d distinct non-trivial), %.1f s' % (
        prop.id, n, len(set().union(*[r['nt'] for r in results])),
        time.time() - started))
    return 0


def write_evidence(prop, tier, seed, results, violation, wall):
    labels, modes, nt, samples = {}, {}, set(), []
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['modes'].items():
            modes[k] = modes.get(k, 0) + v
        nt.update(r['nt'])
    for i in range(8):
        for r in results:
            if i < len(r['samples']) and len(samples) < 6:
                samples.append(r['samples'][i])
    doc = {
        'property': prop.id, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(nt),
            'rule': prop.rule,
            'samples': samples,
            'cases_by_mode': modes,
            'classes': dict(sorted(labels.items())),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop.id + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)


def setup(props):
    """Check that everything a check needs is there."""
    clean_stale()
    w = Worker()
    try:
        res = w.call({'id': 'ping', 'mode': '', 'case': None}, 60)
        missing = sorted(set(props) - set(res['checks']))
        if missing:
            raise HarnessError('no oracle for %s' % missing)
        print('flatland from %s; %d properties' % (res['where'], len(props)))
    finally:
        w.close()
    return 0
