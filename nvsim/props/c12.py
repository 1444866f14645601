"""C12: the release tooling stays inside its own build products."""
from .. import core, forks, release
from .base import Base, STUB

CALLS = {'main': ('build_main', ['1.2.3']), 'remove': ('remove_previous_build', []), 'set': ('set_package', ['1.2.3']), 'license': ('update_license', []), 'readme': ('update_readme', ['1.2.3'])}
STATES = ('full', 'full', 'full', 'empty', 'link', 'link inside', 'file', None)
CWD = ('.', '.', '.', '.', 'docs', 'src', '../outside', 'notes')
RAISED = ('KeyboardInterrupt', 'SystemExit', 'TimeoutError')


def child(spec):
    """problems, report"""
    top = release.make(spec['start'])
    problems = []
    try:
        before = release.tree(top)
        rep = release.simulate(top, spec)
        after = release.tree(top)
    finally:
        release.clean(top)
    own = tuple('project/' + n for n in release.OWN)
    links = {n for n in before if before[n] and before[n][0] == 'link' and n in own}
    may_change = {'project/' + n for n in release.TARGETS} | {'project/shared/linked.txt'}

    def product(n):
        return any(n.startswith(o + '/') for o in own)      # a link or plain file of that name is not a build folder
    for e in rep['escapes']:
        problems.append('effect outside the project: ' + e.replace(top, ''))
    for n in sorted(before):
        if n not in after:
            parent = n.rstrip('/')
            if not product(n) and not (n.endswith('/') and any(k.startswith(n) for k in after)):
                problems.append('%s was deleted' % parent)
        elif after[n] != before[n] and n not in may_change and not product(n):
            problems.append('%s was changed' % n)
    for n in sorted(after):
        if n not in before and not n.startswith('project/') and not (n.endswith('/') and any(k.startswith(n) for k in before)):
            problems.append('%s appeared outside the project' % n)
    home = spec.get('cwd', '.') == '.'
    disturbed = bool(rep['fired'])
    for cmd, cwd in rep['calls']:
        if home and cwd.split('/')[0] != 'project':
            problems.append('sub-command %s was started in %s' % (cmd, cwd))
        elif home and 'setup.py' in cmd and cwd != 'project':
            problems.append('sub-command %s was started in %s, not in the project' % (cmd, cwd))
    for fn, exc, back, _ in rep['log']:
        if not back:
            problems.append('%s did not return to the working directory it was started from' % fn)
        if exc and not disturbed and home and not links:
            problems.append('%s met no fault but raised %s: %s' % (fn, exc[0], exc[1]))
    if not rep['cwd'] and rep['end'][0] == 'ended' and not problems:
        problems.append('the working directory is another one at the end')
    done = [fn for fn, exc, _, _ in rep['log'] if exc is None]
    if ('build_main' in done or 'remove_previous_build' in done) and not disturbed:
        for o in own:
            if o not in links and any(n.startswith(o + '/') for n in after):
                problems.append('%s of an earlier build is still there' % o)
    return problems, rep


class C12(Base):
    id = 'C12'
    jobs = {'quick': 48, 'thorough': 1200}
    runs_per_job = 60
    rule = ('A case is one simulated release build in a scratch project with a chosen state of the build folders (full, empty, symbolic links, plain files) and start directory, with failing or interrupted '
            'sub-commands, deletions, directory changes and file updates, or a kill; distinct by project state and the faults that really happened.')
    real = ['build_package.py (all of it, from the working tree)', 'nvector', 'the file system and deletions (inside a scratch directory; an audit hook refuses and records anything else)']
    stub = STUB + ['sub-commands (recorded, with simulated outcomes)', 'failures of open, write, close, fsync, replace, unlink, rmtree, chdir']
    assumptions = ['sub-commands themselves stay inside the directory they are started in', 'asynchronous interrupts in the middle of a directory change are not injected (Python itself cannot mask them there)']

    def job(self, r, tier, job):
        for _ in range(self.runs_per_job):
            states = r.choice([STATES, ('full', 'full', 'empty', None)])
            start = {'own': {n: s for n in release.OWN for s in [r.choice(states)] if s}}
            if r.random() < 0.2:
                start['link target'] = r.choice(['README.rst', 'LICENSE.txt', 'src/nvector/__init__.py'])
            names = r.choice([['main']] * 5 + [['remove'], ['remove', 'remove'], ['set', 'license', 'readme'], ['main', 'main'], ['remove', 'main']])
            fl = []
            for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
                k = r.choice(['command'] * 6 + ['rmtree'] * 3 + ['chdir'] * 2 + ['write', 'open', 'close', 'replace', 'fsync', 'ropen', 'kill'])
                if k == 'command':
                    fl.append([k, r.randint(1, 6), r.choice(('ENOENT', 'EACCES', 'ENOMEM', 'rc', 'rc') + RAISED * 2)])
                elif k == 'rmtree':
                    fl.append([k, r.randint(1, 4), r.choice(['EACCES', 'ENOTEMPTY', 'EBUSY', 'EIO', 'KeyboardInterrupt']), r.randint(0, 1)])
                elif k == 'write':
                    fl.append([k, r.randint(1, 3), r.choice(['ENOSPC', 'EIO']), r.choice([0, 0.5])])
                elif k == 'kill':
                    fl.append([k, r.randint(1, 40)])
                else:
                    fl.append([k, r.randint(1, 2 if k == 'chdir' else 3), r.choice(['EACCES', 'EIO', 'ENOENT'] if k != 'chdir' else ['EACCES', 'ENOENT', 'ENOTDIR', 'KeyboardInterrupt'])])
            yield {'start': start, 'calls': [list(CALLS[n]) for n in names], 'cwd': r.choice(CWD), 'faults': fl}

    def evaluate(self, spec):
        pr, rep = forks.in_child(child, spec)
        hits = dict(rep['hits'])
        if rep['end'][0] == 'killed':
            hits['kill'] = hits.get('kill', 0) + 1
        il = core.key(spec['start'], spec['calls'], spec['cwd'], rep['end'], rep['fired'])[:8]
        return list(pr), dict(ops=len(rep['log']), fired=hits, ils=[il], steps=rep['steps'], simtime=rep['steps'] * 1e-6, probes={'sub-commands recorded': len(rep['calls']), 'file events': rep['total']})

    def candidates(self, spec):
        if len(spec['calls']) > 1:
            for i in range(len(spec['calls'])):
                yield dict(spec, calls=spec['calls'][:i] + spec['calls'][i + 1:])
        yield from core.list_candidates(spec, 'faults')
        own = spec['start'].get('own', {})
        for n in own:
            yield dict(spec, start=dict(spec['start'], own={k: v for k, v in own.items() if k != n}))
        if 'link target' in spec['start']:
            yield dict(spec, start={k: v for k, v in spec['start'].items() if k != 'link target'})
        if spec['cwd'] != '.':
            yield dict(spec, cwd='.')

    def text(self, spec):
        out = ['project state: %s' % (spec['start'] or 'as committed'), 'started in: %s' % spec['cwd']]
        out += ['  [%d] %s(%s)' % (i, c[0], ', '.join(map(repr, c[1]))) for i, c in enumerate(spec['calls'])]
        for f in spec['faults']:
            out.append('  ' + ('killed before event %d' % f[1] if f[0] == 'kill' else '%s number %d: %s' % (f[0], f[1], f[2:])))
        return '\n'.join(out)


PROP = C12()
