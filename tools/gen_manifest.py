"""Writes MANIFEST.json from the properties and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]

SIM = 'deterministic simulation: '
CLAIM = {
    'C01': (SIM + 'seeded search over bytecode-level interleavings of 2-4 threads, refinement against the same call alone in a fresh process',
            'Sampled schedules over generated shared worlds; trusts CPython GIL semantics (switches only between bytecodes of library code) and the library itself, run alone in a pristine process, as the oracle.'),
    'C02': (SIM + 'seeded search over interleavings, interrupts and allocation failures around Nvector.unit(), with a register (old/new) real-time-order check on the history',
            'Sampled schedules and fault points; readers use the normal once; oracle is the object before and after a completed unit() in a pristine process.'),
    'C03': (SIM + 'fault injection at seeded points inside calls (interrupts, failing dependency calls, failing allocations, exhausted stack, errors-as-exceptions), then recovery checks',
            'Sampled fault points and histories; interrupts are injected where CPython itself delivers signals; oracle is a pristine process.'),
    'C04': (SIM + 'ambient process state under simulator control: observer at every simulated step, seeded perturbation of settings, clock and interpreter modes',
            'Observes a listed set of process-wide and thread-local settings; perturbations are sampled from a fixed catalogue.'),
    'C05': (SIM + 'seeded histories of edits, failures, garbage collection and queries, each query refined against a freshly started process given only the current public values',
            'Sampled histories; the public state of an object is its documented attributes.'),
    'C06': (SIM + 'seeded histories with a hostile client that scribbles on every returned array, fingerprints and memory-overlap checks, probes refined against a fresh process',
            'Sampled calls and layouts; memory sharing is decided by numpy address ranges (np.shares_memory).'),
    'C07': (SIM + 'stalled, killed, re-entered and forked simulated threads with step-bounded progress and deadlock detection under simulated locks',
            'Sampled fault points; a call is given up after 600000 bytecode steps; waiting is visible through simulated locks, queues and sleeps.'),
    'C08': (SIM + 'crash and restart: checkpoints taken at seeded points (also inside concurrent calls), restored in a second interpreter with another hash seed, refined against the original',
            'Sampled histories and pickle protocols 0-5; both interpreters run the same source tree.'),
    'C09': (SIM + 'import of the package under injected interrupts, dependency failures, concurrent importers and a jumping clock, then recovery check against an undisturbed import',
            'Interrupt points are sampled (thorough: denser); numpy and scipy are loaded before faults start, so partial imports of third-party packages are modelled by their failure only.'),
    'C10': (SIM + 'fault injection into the import of the mapping library, plot helper run on a headless backend, history of attempts refined against a recorded plot',
            'The mapping library is a stub module (missing, failing at several points, or recording); matplotlib is real.'),
    'C11': (SIM + 'simulated file system faults (short, torn and failing writes, full disk, kill at any I/O step) under the release tool in a scratch copy, crash-consistency and recovery checks',
            'Python-level file I/O only; a crash loses nothing already written to the file system (no page-cache model) except where a torn write is injected.'),
    'C12': (SIM + 'release tool run with recorded stand-ins for deletion and sub-commands, failures injected at every seam, containment checks on the recorded trace',
            'Deletions, sub-commands and directory changes are recorded, not performed, outside the scratch project.'),
    'C13': (SIM + 'simulated lossy, duplicating, reordering, delaying feed of position fixes in front of the track interpolation, refinement against a small reference model',
            'Sampled tracks and delivery faults; the straight-line reference is an independent few-line model.'),
    'C14': (SIM + 'seeded corruption of batch entries in a simulated sensor feed, differential check against the uncorrupted run of the same batch',
            'Sampled batches, sizes and corruption masks; entries are compared with the clean batch (relative 1e-9) and, for some, with the entry alone (relative 1e-6).'),
}
PURE = {
    'C15': 'lat/lon <-> n-vector inversion is a pure function of its arguments: no schedule, clock, I/O or fault can change it, so simulation adds nothing to input testing or proof',
    'C16': 'n-vector/depth <-> ECEF inversion is a pure numeric identity without any scheduling, time, I/O or fault dimension',
    'C17': 'metric laws of distances are pure numeric statements about single calls; no concurrency, time, I/O or multi-party behaviour to simulate',
    'C18': 'agreement of direct and inverse geodesics is a pure numeric statement about pairs of calls; nothing for a simulator to schedule or fault',
    'C19': 'orthonormality and angle round trips are pure numeric statements; nothing for a simulator to schedule or fault',
    'C20': 'consistency of delta vectors is a pure numeric statement; nothing for a simulator to schedule or fault',
    'C21': 'great-circle geometry is a pure numeric statement; nothing for a simulator to schedule or fault',
    'C22': 'equality laws are pure statements about operand values; their dependence on history is covered by C05',
    'C23': 'independence of the E-axes orientation is a pure numeric statement; mixing answers between orientations through shared state is covered by C01 and C05',
    'C24': 'order and rotation invariance of the mean is a pure numeric statement; nothing for a simulator to schedule or fault',
    'C25': 'the ellipsoid table is constant data checked by reading a finite table; nothing for a simulator to schedule or fault',
    'C26': 'batch = entry-by-entry on clean data is a pure statement about values; the fault side (corrupted entries) is claimed as C14',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM and os.path.exists(os.path.join(HERE, 'nvsim', 'props', i.lower() + '.py')):
        tech, note = CLAIM[i]
        checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='exploration', level_note=note))
    else:
        na.append(dict(property=i, reason=PURE.get(i, 'not built yet')))
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
           notes='No hooks in /repo: every seam (threads, locks, clocks, dates, imports, file I/O, allocation, interrupts, warnings) is put in place from outside. '
                 'Every command takes --seed; VERIF_SEED is the default. ./check.sh --replay FILE re-runs one recorded violation exactly.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
