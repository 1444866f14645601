"""C11: the release tooling updates files all-or-nothing."""
import errno
import re

from .. import core, forks, release
from .base import Base, STUB

STARTS = ({}, {}, {'old': {'LICENSE.txt': 'older'}}, {'old': {'README.rst': 'older', 'src/nvector/__init__.py': 'older'}}, {'old': {'README.rst': 'long'}}, {'old': {'LICENSE.txt': 'missing', 'README.rst': 'empty'}},
          {'link target': 'README.rst'}, {'link target': 'LICENSE.txt'}, {'own': {'dist': 'full', 'build': 'full'}})
CALLS = {'set': ('set_package', ['1.2.3']), 'license': ('update_license', []), 'readme': ('update_readme', ['1.2.3']), 'main': ('build_main', ['1.2.3'])}
FOLDERS = ('project', 'project/src/nvector', 'project/shared')
ERRORS = ('ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT')


def pilot_child(start, calls):
    """an undisturbed run: old contents, new contents, the whole tree, the events"""
    top = release.make(start)
    try:
        old = {n: release.target(top, n) for n in release.TARGETS}
        rep = release.simulate(top, dict(calls=calls, record=1))
        new = {n: release.target(top, n) for n in release.TARGETS}
        return old, new, release.tree(top), rep
    finally:
        release.clean(top)


_pilots = {}


def pilot(start, calls):
    k = core.key(start, calls)
    if k not in _pilots:
        _pilots[k] = forks.in_child(pilot_child, start, calls)
    return _pilots[k]


def child(spec, old, new, final):
    top = release.make(spec['start'])
    problems = []
    try:
        watch = {n: [old[n], new[n]] for n in release.TARGETS}
        rep = release.simulate(top, spec, watch)
        for at, n, size in rep['torn']:
            problems.append('%s %s at event %d: neither the old nor the new contents' % (n, 'is missing' if size < 0 else 'has %d bytes' % size, at))
        for n in release.TARGETS:
            now = release.target(top, n)
            if now not in watch[n]:
                problems.append('%s: after %s it is neither old (%s bytes) nor new (%s bytes) but %s bytes' % (
                    n, ' '.join(rep['end']), size_of(old[n]), size_of(new[n]), size_of(now)))
        faults = bool(rep['fired']) or any(f for ent in rep['log'] for f in ent[3]) or rep['end'][0] == 'killed'
        for fn, exc, _, fired in rep['log']:
            if exc and not faults:
                problems.append('%s met no fault but raised %s: %s' % (fn, exc[0], exc[1]))
        again = release.simulate(top, dict(calls=spec['calls']))
        for fn, exc, _, _ in again['log']:
            if exc:
                problems.append('running the tool again: %s raised %s: %s' % (fn, exc[0], exc[1]))
        cut = rep['end'][0] == 'killed' or any(f for ent in rep['log'] for f in ent[3])      # scratch files of a run that was cut short may stay
        now = release.tree(top)
        for n in sorted(set(now) | set(final)):
            if now.get(n) != final.get(n) and not (cut and n not in final and n.rpartition('/')[0] in FOLDERS):
                problems.append('after running the tool again %s %s' % (n, 'is left over' if n not in final else 'is missing' if n not in now else 'differs from an undisturbed run'))
        return problems, rep
    finally:
        release.clean(top)


def size_of(b):
    return 'no' if b is None else len(b)


class C11(Base):
    id = 'C11'
    jobs = {'quick': 48, 'thorough': 1200}
    runs_per_job = 48
    rule = ('A case is one simulated run of the release tool\'s file updates in a scratch project, with a failing, short or torn write, a failing open, close, sync or replace, an interrupt or a kill '
            'at a chosen event, an observer that reads the files before every event, then a second run without faults; distinct by the faults that really happened.')
    real = ['build_package.py (all of it, from the working tree)', 'nvector', 'the file system (inside a scratch directory)', 'CPython buffered and text I/O']
    stub = STUB + ['raw writes, open, close, fsync, replace, unlink, rmtree (real effect, simulated failures)', 'sub-commands (recorded, never run)']
    assumptions = ['a kill loses user-space buffers, not what was handed to the kernel (no power loss)', 'an undisturbed run on the same project defines the new contents']

    def job(self, r, tier, job):
        now = re.search(rb"__version__ = ['\"]([^'\"]*)['\"]", release.original('src/nvector/__init__.py'))
        now = now.group(1).decode() if now else '0.0'
        like = now[:-1] + ('9' if now[-1:] != '9' else '8')          # as long as the present one
        versions = ['1.2.3', '1.2.3', like, like, now, '10.20.30.post4']
        for _ in range(self.runs_per_job):
            start = r.choice(STARTS)
            names = r.choice([['set'], ['license'], ['readme'], ['set', 'license', 'readme'], ['main']])
            version = r.choice(versions)
            calls = [[CALLS[n][0], [version] if CALLS[n][1] else []] for n in names]
            rep = pilot(start, calls)[3]
            fl, ints = [], []
            for _ in range(r.choice([1, 1, 1, 2])):
                c = rep['count']
                kinds = ['kill'] * 3 + ['write'] * 3 + ['torn', 'torn', 'short', 'open', 'close', 'int', 'int'] + [k for k in ('fsync', 'replace', 'replace', 'remove', 'truncate', 'read', 'ropen') if c.get(k)]
                k = r.choice(kinds)
                if k == 'kill':
                    fl.append(['kill', r.randint(1, max(1, rep['total']))])
                elif k == 'write':
                    fl.append(['write', r.randint(1, max(1, c.get('write', 1))), r.choice(ERRORS), r.choice([0, 0, 0.3, 0.9])])
                elif k in ('torn', 'short'):
                    fl.append([k, r.randint(1, max(1, c.get('write', 1))), r.choice([0.0, 0.2, 0.5, 0.99])])
                elif k == 'int':
                    i = r.randrange(len(calls))
                    if rep['legal'].get(i):
                        ints.append([i, r.choice(rep['legal'][i]), r.choice(['KeyboardInterrupt', 'TimeoutError', 'MemoryError'])])
                else:
                    fl.append([k, r.randint(1, max(1, c.get(k, 1))), r.choice({'open': ['EACCES', 'ENOSPC', 'EMFILE', 'EROFS'], 'replace': ['EACCES', 'EXDEV', 'EIO']}.get(k, ['EIO', 'ENOSPC']))])
            yield {'start': start, 'calls': calls, 'faults': fl, 'ints': ints}

    def evaluate(self, spec):
        old, new, final, rep0 = pilot(spec['start'], spec['calls'])
        problems = []
        for fn, exc, _, _ in rep0['log']:
            if exc:
                problems.append('undisturbed: %s raised %s: %s' % (fn, exc[0], exc[1]))
        if any(c[0] in ('set_package', 'build_main') for c in spec['calls']) and not problems:
            n = 'src/nvector/__init__.py'
            version = [c[1][0] for c in spec['calls'] if c[0] in ('set_package', 'build_main')][-1]
            want = re.sub(rb"__version__ = ['\"]([^'\"]*)['\"]", ('__version__ = "%s"' % version).encode(), old[n])
            if new[n] != want:
                problems.append('undisturbed: setting the version changed more or less than the version')
        if problems:
            return problems, dict(ops=0, fired={}, ils=[])
        pr, rep = forks.in_child(child, spec, old, new, final)
        hits = dict(rep['hits'])
        if rep['end'][0] == 'killed':
            hits['kill'] = hits.get('kill', 0) + 1
        il = core.key(spec['start'], spec['calls'], rep['end'], rep['fired'], [e[3] for e in rep['log']])[:8]
        return list(pr), dict(ops=len(rep['log']) + len(spec['calls']), fired=hits, ils=[il] if hits else [], steps=rep['steps'], simtime=rep['steps'] * 1e-6, probes={'file events': rep['total']})

    def candidates(self, spec):
        if len(spec['calls']) > 1:
            for i in range(len(spec['calls'])):
                s = dict(spec)
                s['calls'] = spec['calls'][:i] + spec['calls'][i + 1:]
                s['ints'] = [[e[0] - (e[0] > i)] + e[1:] for e in spec['ints'] if e[0] != i]
                yield s
        yield from core.list_candidates(spec, 'faults')
        yield from core.list_candidates(spec, 'ints')
        if spec['start']:
            yield dict(spec, start={})

    def text(self, spec):
        out = ['project state: %s' % (spec['start'] or 'as committed')]
        out += ['  [%d] %s(%s)' % (i, c[0], ', '.join(map(repr, c[1]))) for i, c in enumerate(spec['calls'])]
        for f in spec['faults']:
            out.append('  ' + ('killed before file event %d' % f[1] if f[0] == 'kill' else '%s number %d: %s' % (f[0], f[1], f[2:])))
        for e in spec['ints']:
            out.append('  [%d] step %d: %s' % tuple(e))
        return '\n'.join(out)


PROP = C11()
