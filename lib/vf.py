"""Shared machinery of the checks: sharded seeded workloads, monitors, verdicts, evidence.

A check module calls ``vf.main(Spec(...))``.  ``Spec.case(m, rng, i)`` is one execution of the
real code; ``m`` is the Monitor the oracles report to.  Every case is determined by
(VERIF_SEED, shard, index), so a violation is replayed with ``--replay FILE``.

Verdicts: exit 0 held on everything observed, 1 violated (VIOLATION line), 2 no verdict
(the harness failed, or a monitor that must observe something observed nothing).
"""
import argparse
import collections
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Hang(BaseException):
    pass


class Violation(Exception):
    """Raised by Monitor.fail to end the case after the first violation in it."""


class Known(Exception):
    """Raised to end a case that ran into a listed known finding."""


class Monitor(object):
    def __init__(self, pid, known):
        self.pid = pid
        self.known = known            # key -> entry, open findings only
        self.counts = collections.Counter()
        self.distinct = set()
        self.violations = []          # (key, detail)
        self.known_hits = collections.Counter()
        self.samples = []
        self.log = []                 # events of the current case
        self.current = None
        self.sigs = set()             # signatures of the cases: the states each went through
        self.trail = hashlib.blake2b(digest_size=8)
        self.trailed = False

    # --- events -------------------------------------------------------------
    def saw(self, name, n=1):
        """Count one observation of the monitor ``name``."""
        self.counts[name] += n

    def event(self, *args):
        self.log.append(args)
        if len(self.log) > 4000:
            del self.log[:2000]

    def state(self, *parts):
        """Record a distinct observed state / case signature."""
        h = hashlib.blake2b(repr(parts).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()
        self.distinct.add(h)
        self.trail.update(h.encode())
        self.trailed = True

    def end_case(self):
        if self.trailed:
            self.sigs.add(self.trail.hexdigest())
        self.trail = hashlib.blake2b(digest_size=8)
        self.trailed = False

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # --- oracles ------------------------------------------------------------
    def fail(self, key, detail):
        if key in self.known:
            self.known_hits[key] += 1
            raise Known(key)
        self.violations.append((key, detail))
        raise Violation(key)

    def finding(self, key, detail):
        """A violation with an identity of its own: counted and passed over when listed as known."""
        if key in self.known:
            self.known_hits[key] += 1
            return
        self.fail(key, detail)

    def check(self, name, cond, detail=None):
        self.counts[name] += 1
        if not cond:
            self.fail(name, detail() if callable(detail) else detail)
        return True

    def eq(self, name, got, want, detail=None):
        self.counts[name] += 1
        ok = (got == want)
        if hasattr(ok, 'all'):
            ok = bool(ok.all())
        if not ok:
            d = detail() if callable(detail) else detail
            self.fail(name, {'got': repr(got)[:1500], 'want': repr(want)[:1500], 'ctx': d})
        return True

    def close(self, name, got, want, tol, detail=None):
        self.counts[name] += 1
        bad = False
        try:
            bad = not (abs(got - want) <= tol)
        except TypeError:
            bad = True
        if bad:
            d = detail() if callable(detail) else detail
            self.fail(name, {'got': repr(got), 'want': repr(want), 'tol': tol, 'ctx': d})
        return True

    def raises(self, name, exc, fn, detail=None):
        """fn() must raise exc (class or tuple); returns the exception."""
        self.counts[name] += 1
        try:
            got = fn()
        except exc as e:
            return e
        except (Violation, Known):
            raise
        except Exception as e:
            got = e
        d = detail() if callable(detail) else detail
        self.fail(name, {'got': repr(got)[:800], 'want': 'raises %r' % (exc,), 'ctx': d})


class Glances(object):
    """When a history is looked at: after every step, or (a third of the histories) only now and then.

    Looking can itself repair a stale cache, so a monitor that always looks would hide what a user who does not look meets."""

    def __init__(self, rng):
        self.p = 0.75 if rng.random() < 0.35 else 0.0

    def __call__(self, rng):
        return not self.p or rng.random() >= self.p


class Spec(object):
    def __init__(self, pid, case, quick, thorough, rule, setup=None, fixed=None,
                 required=(), shards=None, anchors=(), assumptions=(), level='exploration',
                 case_timeout=40, post=None, env=None):
        self.pid = pid
        self.case = case              # case(m, rng, i)
        self.quick = quick            # number of cases, all shards together
        self.thorough = thorough
        self.rule = rule
        self.setup = setup            # setup(m): once per worker
        self.fixed = fixed or []      # directed cases: functions f(m, rng), run on shard 0
        self.required = list(required)  # monitors that must have observed something
        self.shards = shards
        self.anchors = list(anchors)  # files under svgpy/ whose reached lines are reported
        self.assumptions = list(assumptions)
        self.level = level
        self.case_timeout = case_timeout
        self.env = env or {}          # extra environment of the workers
        self.post = post              # post(tier, seed) -> (violations, extra coverage), in the parent


# ---------------------------------------------------------------------------
class LineReach(object):
    """Which lines of the anchor files the workload reached (sys.monitoring, first hit only)."""

    def __init__(self, files):
        self.files = {os.path.join(REPO, f): f for f in files}
        if os.environ.get('VERIF_COV'):     # a survey of what a check reaches anywhere (tools/mutants.py)
            for top, _, names in os.walk(os.path.join(REPO, 'svgpy')):
                for n in names:
                    p = os.path.join(top, n)
                    if n.endswith('.py'):
                        self.files[p] = os.path.relpath(p, REPO)
        self.hit = {f: set() for f in self.files.values()}
        self.on = bool(self.files) and hasattr(sys, 'monitoring')

    def start(self):
        if not self.on:
            return
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        try:
            mon.use_tool_id(self.tool, 'verif-reach')
        except ValueError:
            self.on = False
            return

        def on_line(code, line):
            name = self.files.get(code.co_filename)
            if name is not None:
                self.hit[name].add(line)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)

    def result(self):
        return {f: sorted(s) for f, s in self.hit.items()}


def _decorators(code):
    return () if code.co_name.startswith('<') else (0,)


def executable_lines(path):
    out = set()
    try:
        with open(path) as f:
            code = compile(f.read(), path, 'exec')
    except (OSError, SyntaxError):
        return out
    todo = [code]
    while todo:
        c = todo.pop()
        if c.co_flags & 2:              # function bodies: class and module level run at import
            out.update(x for _, _, x in c.co_lines() if x and x > c.co_firstlineno + len(_decorators(c)))
        todo.extend(k for k in c.co_consts if hasattr(k, 'co_code'))
    return out


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['key']: e for e in data.get('findings', [])
            if e['property'] == pid and e.get('status') == 'open'}


def rng_for(seed, shard, i):
    return random.Random('%s/%s/%s' % (seed, shard, i))


def run_one(spec, m, fn, rng, label):
    m.log = []
    m.current = label
    try:
        signal.setitimer(signal.ITIMER_REAL, spec.case_timeout)
        fn(m, rng)
    except Violation as e:
        return True
    except Known:
        return False
    except Hang:
        m.violations.append(('hang', {'case': label, 'timeout_s': spec.case_timeout,
                                      'events': [repr(x)[:300] for x in m.log[-30:]]}))
        return True
    except RecursionError as e:
        m.violations.append(('exception:RecursionError', {'case': label,
                             'events': [repr(x)[:300] for x in m.log[-30:]]}))
        return True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if f.filename.startswith(REPO)]
        where = '%s:%s' % (os.path.basename(inner[-1].filename), inner[-1].name) if inner \
            else '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name)
        key = 'exception:%s:%s' % (type(e).__name__, where)
        if key in m.known:
            m.known_hits[key] += 1
            return False
        m.violations.append((key, {'error': repr(e)[:600],
                                   'trace': traceback.format_exc()[-1800:],
                                   'events': [repr(x)[:400] for x in m.log[-30:]]}))
        return True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        m.end_case()
    return False


def worker(spec, args):
    def on_alarm(signum, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    m = Monitor(spec.pid, load_known(spec.pid))
    reach = LineReach(spec.anchors)
    if spec.setup:
        spec.setup(m)
    reach.start()
    n = spec.thorough if args.tier == 'thorough' else spec.quick
    if args.cases:
        n = args.cases
    lo = n * args.shard // args.shards
    hi = n * (args.shard + 1) // args.shards
    found = []
    done = 0
    prog = open(args.out + '.progress', 'w')
    deadline = time.monotonic() + args.deadline

    def note(label):
        prog.seek(0)
        prog.write('%-120s' % label)
        prog.flush()
    jobs = []
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        jobs = [r['case']]
    else:
        if args.shard == 0:
            jobs += ['fixed/%d' % i for i in range(len(spec.fixed))]
        jobs += ['%d/%d' % (args.shard, i) for i in range(lo, hi)]
    truncated = False
    for label in jobs:
        if time.monotonic() > deadline:
            truncated = True
            break
        a, b = label.split('/')
        note(label)
        if a == 'fixed':
            fn = spec.fixed[int(b)]
            rng = rng_for(args.seed, 'fixed', b)
        else:
            fn = (lambda m, rng, i=int(b): spec.case(m, rng, i))
            rng = rng_for(args.seed, a, b)
        before = len(m.violations)
        run_one(spec, m, fn, rng, label)
        done += 1
        if len(m.violations) > before:
            key, detail = m.violations[-1]
            found.append({'property': spec.pid, 'case': label, 'seed': args.seed, 'key': key,
                          'detail': detail, 'events': [repr(x)[:400] for x in m.log[-40:]]})
            if len(found) >= 5 or key == 'hang':
                break
    out = {'done': done, 'counts': dict(m.counts), 'distinct': sorted(m.distinct), 'sigs': sorted(m.sigs),
           'violations': found, 'known_hits': dict(m.known_hits), 'samples': m.samples,
           'reach': reach.result(), 'truncated': truncated}
    if os.environ.get('VERIF_COV'):
        with open(os.path.join(os.environ['VERIF_COV'], '%s.%s.json' % (spec.pid, args.shard)), 'w') as f:
            json.dump(out['reach'], f)
        out['reach'] = {f: out['reach'][f] for f in spec.anchors}
    with open(args.out, 'w') as f:
        json.dump(plain(out), f)


def plain(x, depth=0):
    """x as JSON can hold it: a detail may hold any object of the code under test."""
    if x is None or type(x) in (bool, int, float, str):
        return x
    try:
        if depth < 12:
            if isinstance(x, dict):
                return {k if type(k) is str else repr(k): plain(v, depth + 1) for k, v in x.items()}
            if type(x) in (list, tuple, set, frozenset):
                return [plain(v, depth + 1) for v in x]
        return repr(x)[:2000]
    except Exception as e:
        return '<%s without a repr: %s>' % (type(x).__name__, type(e).__name__)


def child_env(extra=None):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', LC_ALL='C.UTF-8',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
    env['PYTHONPATH'] = os.pathsep.join([REPO, os.path.join(VERIF, 'lib'),
                                         os.path.join(VERIF, 'checks')])
    for k in ('http_proxy', 'https_proxy', 'all_proxy', 'HTTP_PROXY', 'HTTPS_PROXY', 'ALL_PROXY'):
        env.pop(k, None)
    env.update(extra or {})
    return env


def main(spec):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int, default=0)
    ap.add_argument('--deadline', type=float, default=0)
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if not args.deadline:
        args.deadline = 600 if args.tier == 'quick' else 5400
    if args.shard is not None:
        worker(spec, args)
        return
    t0 = time.monotonic()
    scratch = '/tmp/verif-%s-%d' % (spec.pid, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    script = os.path.abspath(sys.modules['__main__'].__file__)
    shards = args.shards or spec.shards or min(8, os.cpu_count() or 1)
    if args.replay:
        shards = 1
        with open(args.replay) as f:
            args.seed = json.load(f)['seed']
    procs = []
    for s in range(shards):
        out = os.path.join(scratch, 'out%d.json' % s)
        cmd = [PY, '-X', 'faulthandler', script, '--tier', args.tier, '--seed', str(args.seed),
               '--shard', str(s), '--shards', str(shards), '--out', out,
               '--deadline', str(args.deadline), '--cases', str(args.cases)]
        if args.replay:
            cmd += ['--replay', args.replay]
        err = open(out + '.err', 'w')
        procs.append((subprocess.Popen(cmd, stdout=err, stderr=err, env=child_env(spec.env),
                                       cwd=scratch, start_new_session=True), out))
    counts = collections.Counter()
    distinct = set()
    sigs = set()
    violations = []
    known_hits = collections.Counter()
    samples = []
    reach = {f: set() for f in spec.anchors}
    done = 0
    truncated = False
    broken = []
    for p, out in procs:
        try:
            p.wait(timeout=args.deadline + 3 * spec.case_timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            broken.append('worker timed out')
        with open(out + '.err', errors='replace') as f:
            err = f.read()
        label = ''
        if os.path.exists(out + '.progress'):
            with open(out + '.progress') as f:
                label = f.read().strip()
        if p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                                  signal.SIGFPE, signal.SIGILL):
            violations.append({'property': spec.pid, 'case': label, 'seed': args.seed,
                               'key': 'crash:%s' % signal.Signals(-p.returncode).name,
                               'detail': err[-3000:], 'events': []})
            continue
        if p.returncode != 0 or not os.path.exists(out):
            broken.append('worker rc=%s case=%s\n%s' % (p.returncode, label, err[-3000:]))
            continue
        with open(out) as f:
            r = json.load(f)
        done += r['done']
        counts.update(r['counts'])
        distinct.update(r['distinct'])
        sigs.update(r['sigs'])
        violations += r['violations']
        known_hits.update(r['known_hits'])
        samples += r['samples']
        truncated |= r['truncated']
        for fn, lines in r['reach'].items():
            reach[fn].update(lines)
    extra = {}
    if spec.post and not args.replay:
        v2, extra, b2 = spec.post(args.tier, args.seed, scratch)
        known = load_known(spec.pid)
        for v in v2:
            if v['key'] in known:
                known_hits[v['key']] += 1
            else:
                violations.append(v)
        broken += b2
        for k, n in extra.pop('counts', {}).items():
            counts[k] += n
        for d in extra.pop('distinct', []):
            distinct.add(d)
            sigs.add(d)
        done += extra.pop('done', 0)
    idle = [name for name in spec.required if counts[name] == 0] if not args.replay else []
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    lines = {}
    for f, hit in reach.items():
        total = executable_lines(os.path.join(REPO, f))
        if total:
            lines[f] = '%d/%d function-body lines' % (len(hit & total), len(total))
            if os.environ.get('VERIF_UNREACHED'):
                print('unreached in %s: %s' % (f, sorted(total - hit)))
    if not samples:
        samples = ['none recorded']
    ev = {'property': spec.pid, 'tier': args.tier, 'seed': args.seed, 'level': spec.level,
          'coverage': dict(evaluations=done, distinct_nontrivial=len(sigs), distinct_states=len(distinct),
                           rule=spec.rule + '; a case counts once per distinct sequence of such states',
                           samples=samples[:6], monitor_observations=dict(sorted(counts.items())),
                           total_observations=sum(counts.values()), anchor_lines_reached=lines,
                           workers=shards, truncated_by_deadline=truncated, **extra),
          'assumptions': spec.assumptions, 'wall_s': round(time.monotonic() - t0, 2),
          'violations': len(violations)}
    if not args.replay:
        with open(os.path.join(EVID, spec.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=repr)
            f.write('\n')
    subprocess.run(['rm', '-rf', scratch])
    for key, e in sorted(load_known(spec.pid).items()):
        if known_hits[key]:
            print('KNOWN-FINDING: property=%s %s [%s, seen %d times]'
                  % (spec.pid, e['what'], key, known_hits[key]))
        elif e.get('always', True) and not args.replay:
            print('note: known finding %s did not show in this run' % key)
    seen = set()
    n = 0
    for v in violations:
        if v['key'] in seen or n >= 5:
            continue
        seen.add(v['key'])
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (spec.pid, n))
        if args.replay:
            path = args.replay
        else:
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=repr)
                f.write('\n')
        n += 1
        print('VIOLATION property=%s replay=%s' % (spec.pid, path))
        print('  case %s key %s' % (v['case'], v['key']))
        print('  ' + json.dumps(v['detail'], default=repr)[:1500])
    print('%s %s seed=%d: %d cases, %d distinct, %d observations, %d violations, %.1fs'
          % (spec.pid, args.tier, args.seed, done, len(sigs), sum(counts.values()),
             len(violations), time.monotonic() - t0))
    if violations:
        sys.exit(1)
    if broken or idle or done == 0:
        for b in broken:
            print('NO VERDICT: ' + b)
        if idle:
            print('NO VERDICT: monitors that observed nothing: %s' % idle)
        sys.exit(2)
    sys.exit(0)
