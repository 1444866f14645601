"""Runner:  python -m nvsim.check C01 [--tier quick|thorough] [--seed N] [--jobs N] [--workers N]
            python -m nvsim.check --replay FILE

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: broken.
Anything else is an error of the check.
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    return importlib.import_module('nvsim.props.%s' % prop.lower()).PROP


def job_rng(seed, prop, job):
    h = hashlib.sha256(('%s/%s/%s' % (seed, prop, job)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


# ------------------------------------------------------------------ statistics
class Stats:
    def __init__(self):
        self.n = {}
        self.fired = {}
        self.ils = set()
        self.samples = []
        self.probes = {}

    def add(self, st):
        for k, v in st.items():
            if k == 'il':
                if v:
                    self.ils.add(v)
            elif k == 'ils':
                self.ils.update(v)
            elif k == 'fired':
                for a, b in v.items():
                    self.fired[a] = self.fired.get(a, 0) + b
            elif k == 'probes':
                for a, b in v.items():
                    self.probes[a] = self.probes.get(a, 0) + b
            elif isinstance(v, (int, float)):
                self.n[k] = self.n.get(k, 0) + v

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for a, b in o.fired.items():
            self.fired[a] = self.fired.get(a, 0) + b
        for a, b in o.probes.items():
            self.probes[a] = self.probes.get(a, 0) + b
        self.ils |= o.ils
        if len(self.samples) < 6:
            self.samples.extend(o.samples[:2])


def keep_spec(P, job, spec):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-not-completed-%d.json' % (P.id, job))
    with open(path, 'w') as f:
        json.dump({'property': P.id, 'run': spec}, f)
    return path


# ------------------------------------------------------------------ one job (in a worker)
def run_job(P, seed, job, tier, deadline, logf=None):
    from . import forks, seams
    rng = job_rng(seed, P.id, job)
    st = Stats()
    bad = None
    done = True
    for spec in P.job(rng, tier, job):
        if seams.real_monotonic() > deadline:
            done = False
            break
        try:
            problems, s = P.evaluate(spec)
        except BaseException:
            path = keep_spec(P, job, spec)
            print('run not completed: the specification is in %s' % path, file=sys.stderr)
            raise
        st.n['runs'] = st.n.get('runs', 0) + 1
        st.add(s)
        if logf is not None:
            logf.write('%d %d %s %s\n' % (job, st.n['runs'], hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:12],
                                          hashlib.sha1(repr((problems, sorted((k, v) for k, v in s.items() if k not in ('fired', 'probes', 'ils')),
                                                             sorted(s.get('fired', {}).items()))).encode()).hexdigest()[:12]))
        if len(st.samples) < 1 and s.get('interesting', 1):
            st.samples.append(P.text(spec))
        if problems:
            bad = (job, spec, problems)
            break
    return st, bad, done


def worker(P, seed, jobs, tier, deadline, wfd, logpath):
    """runs jobs, sends pickled (job, Stats, bad, done)"""
    code = 0
    import tempfile
    from . import forks
    forks.scratch = os.environ['TMPDIR'] = tempfile.tempdir = tempfile.mkdtemp(prefix='w')
    logf = open(logpath, 'w') if logpath else None
    try:
        for job in jobs:
            from . import seams
            if seams.real_monotonic() > deadline:
                _send(wfd, ('late', job))
                break
            try:
                st, bad, done = run_job(P, seed, job, tier, deadline, logf)
            except BaseException:
                _send(wfd, ('error', job, traceback.format_exc()))
                code = 3
                break
            _send(wfd, ('job', job, st, bad, done))
            if bad:
                break
    except BaseException:
        traceback.print_exc()
        code = 5
    finally:
        if logf:
            logf.close()
        os._exit(code)


def pin(w):
    """one CPU per worker: handing the baton over is cheaper, nothing else changes"""
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[w % len(cpus)]})
    except (AttributeError, OSError):
        pass


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = len(data).to_bytes(8, 'big') + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def explore(P, seed, njobs, tier, nworkers, wall, logdir=None):
    from . import seams
    start = seams.real_monotonic()
    deadline = start + wall
    readers = {}
    for w in range(nworkers):
        jobs = list(range(w, njobs, nworkers))
        if not jobs:
            continue
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                pin(w)
                os.close(r)
                for fd in readers:
                    os.close(fd)
                worker(P, seed, jobs, tier, deadline, wfd, os.path.join(logdir, 'w%d.log' % w) if logdir else None)
            finally:
                os._exit(4)
        os.close(wfd)
        readers[r] = [pid, b'']
    total, bads, errors, late, jobs_done = Stats(), [], [], 0, 0
    grace = None
    while readers:
        now = seams.real_monotonic()
        limit = deadline + 180
        if grace is not None:
            limit = min(limit, grace)
        if now > limit:
            for fd, (pid, _) in list(readers.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            if grace is None:
                errors.append('workers did not finish in time')
            break
        ready, _, _ = select.select(list(readers), [], [], min(1.0, limit - now))
        for fd in ready:
            b = os.read(fd, 1 << 20)
            ent = readers[fd]
            if not b:
                os.close(fd)
                _, status = os.waitpid(ent[0], 0)
                if status != 0 and not errors:
                    errors.append('worker ended with status %d' % status)
                del readers[fd]
                continue
            ent[1] += b
            while len(ent[1]) >= 8:
                n = int.from_bytes(ent[1][:8], 'big')
                if len(ent[1]) < 8 + n:
                    break
                msg = pickle.loads(ent[1][8:8 + n])
                ent[1] = ent[1][8 + n:]
                if msg[0] == 'job':
                    jobs_done += 1
                    total.merge(msg[2])
                    if msg[3]:
                        bads.append(msg[3])
                        if grace is None:       # let jobs under way finish, then stop
                            grace = seams.real_monotonic() + 5.0
                    if not msg[4]:
                        late += 1
                elif msg[0] == 'late':
                    late += 1
                else:
                    errors.append(msg[2])
    bads.sort(key=lambda b: b[0])
    return total, bads, errors, late, jobs_done, seams.real_monotonic() - start


# ------------------------------------------------------------------ shrinking
def shrink(P, spec, problems, budget_s=60.0, max_evals=600):
    from . import seams
    end = seams.real_monotonic() + budget_s
    evals = 0
    progress = True
    while progress:
        progress = False
        for cand in P.candidates(spec):
            if cand is None:
                continue
            if seams.real_monotonic() > end or evals >= max_evals:
                return spec, problems, evals
            evals += 1
            try:
                pr, _ = P.evaluate(cand)
            except Exception:
                continue
            if pr and P.same_class(problems, pr):
                spec, problems = cand, pr
                progress = True
                break
    return spec, problems, evals


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('known', []) if k['property'] == prop]


def respawn_args():
    return [sys.executable, '-W', 'ignore', '-m', 'nvsim.check']


def replay(path, quiet=False):
    from . import boot
    with open(path) as f:
        rep = json.load(f)
    P = load(rep['property'])
    boot.boot(package=P.package)
    P.prepare()
    problems, _ = P.evaluate(rep['run'])
    if problems:
        if not quiet:
            for p in problems[:5]:
                print('  ' + p)
            print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    if not quiet:
        print('replay of %s: the property held' % path)
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--log')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.replay:
        return replay(a.replay)
    t0 = time.monotonic()
    from . import boot
    P = load(a.prop)
    boot.boot(package=P.package)
    from . import seams
    P.prepare()
    njobs = a.jobs or P.jobs[a.tier]
    nworkers = a.workers or min(8, os.cpu_count() or 1, max(1, njobs))
    wall = a.wall or {'quick': 420.0, 'thorough': 2400.0}[a.tier]
    print('seed %d tier %s jobs %d workers %d property %s repo %s' % (a.seed, a.tier, njobs, nworkers, P.id, boot.REPO), flush=True)
    total, bads, errors, late, jobs_done, secs = explore(P, a.seed, njobs, a.tier, nworkers, wall, a.log)
    rc = 0
    lines = []
    if bads:
        rc = report(P, a, bads, lines)
        if rc == 2:
            errors.append('a violation was seen once but did not happen again')
    if errors and rc != 1:
        rc = 3
        for e in errors[:3]:
            print('ERROR ' + str(e)[-3000:], flush=True)
    runs = total.n.get('runs', 0)
    if rc == 0 and runs == 0:
        print('ERROR nothing was explored')
        rc = 3
    if not a.no_evidence:
        evidence(P, a, total, rc, late, jobs_done, secs, seams.real_monotonic(), nworkers)
    print('%s: %d runs in %d jobs, %.1f s, %d distinct histories, faults %s%s' % (
        P.id, runs, jobs_done, secs, len(total.ils), json.dumps(dict(sorted(total.fired.items()))),
        ', stopped by the wall clock after %d jobs' % jobs_done if late else ''), flush=True)
    if total.probes:
        print('probes ' + json.dumps(dict(sorted(total.probes.items()))))
    for ln in lines:
        print(ln, flush=True)
    return rc


def report(P, a, bads, lines):
    """shrink the first violation, write its replay file, make sure a fresh process agrees"""
    outdir = os.path.join(HERE, 'replays')
    os.makedirs(outdir, exist_ok=True)
    fallback = None
    for job, spec, problems in bads[:3]:
        again, _ = P.evaluate(spec)
        if not again:
            again, _ = P.evaluate(spec)
        if not again:
            continue
        small, probs, evals = shrink(P, spec, again)
        name = '%s-%s.json' % (P.id, hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(outdir, name)
        for body, pr, tag in ((small, probs, 'minimised in %d evaluations' % evals), (spec, again, 'not minimised')):
            with open(path, 'w') as f:
                json.dump(dict(property=P.id, seed=a.seed, job=job, note=tag, problems=pr, text=P.text(body), run=body), f, indent=1)
            ok = subprocess.run(respawn_args() + ['--replay', path], cwd=HERE, stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL, timeout=300).returncode == 1
            if ok:
                break
        for p in pr[:4]:
            print('  ' + p)
        print(P.text(body))
        if ok:
            lines.append('VIOLATION property=%s replay=%s' % (P.id, path))
            return 1
        fallback = 'VIOLATION property=%s replay=%s' % (P.id, path)
    if fallback:
        print('note: the violation repeats in forks of this process but not in a fresh interpreter')
        lines.append(fallback)
        return 1
    return 2


def evidence(P, a, total, rc, late, jobs_done, secs, now, nworkers):
    runs = total.n.get('runs', 0)
    cov = dict(evaluations=runs,
               distinct_nontrivial=len(total.ils),
               rule=P.rule,
               samples=total.samples[:4],
               seeds=jobs_done,
               runs_per_hour=int(runs / secs * 3600) if secs else 0,
               seeds_per_hour=int(jobs_done / secs * 3600) if secs else 0,
               simulated_seconds=round(total.n.get('simtime', 0.0), 3),
               bytecode_steps=int(total.n.get('steps', 0)),
               calls_checked=int(total.n.get('ops', 0)),
               thread_switches=int(total.n.get('switches', 0)),
               simulated_lock_operations=int(total.n.get('lock_ops', 0)),
               faults_injected=dict(sorted(total.fired.items())),
               probes=dict(sorted(total.probes.items())),
               not_bit_identical=int(total.n.get('near', 0)),
               workers=nworkers,
               stopped_by_wall_clock=bool(late),
               real_components=P.real, stub_components=P.stub)
    ev = dict(property=P.id, tier=a.tier, seed=a.seed, level=P.level, coverage=cov,
              assumptions=P.assumptions, wall_s=round(secs, 2), violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % P.id), 'w') as f:
        json.dump(ev, f, indent=1)


def scratch_dir():
    """what the code under test may put into a temporary directory stays in one of this check's own"""
    import tempfile
    d = tempfile.mkdtemp(prefix='nvsim-tmp-')
    os.environ['TMPDIR'] = tempfile.tempdir = d
    return d


if __name__ == '__main__':
    scratch = scratch_dir()
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 4
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
