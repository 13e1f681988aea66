"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = 'deterministic simulation with fault injection: '
HOW = {
    'C01': 'fingerprints of all objects checked during and after seeded runs of several clients, with write attempts on '
           'every handed-out array and aborted operations',
    'C02': 'seeded byte code schedules of racing readers, aborted reads; every value against its definition',
    'C03': 'interrupts, backend and callback failures at seeded instants, then retry; against fault-free clones',
    'C04': 'failures of seeded kinds at seeded backend calls and callbacks; the surfacing error is judged',
    'C05': 'seeded schedules of racing registrations and look-ups; linearizability against an insert-once map',
    'C06': 'seeded schedules of default-method changes and uses; linearizability against an atomic register',
    'C07': 'seeded edit histories in lock-step with a list-of-points reference model',
    'C08': 'seeded histories and schedules over views, curves and collected curves; against the curve and the model',
    'C09': 'process-wide settings watched over seeded runs with failures under different settings',
    'C10': 'same seeded programs in a pristine process and among other, failed and concurrent work in a long-lived '
           'process with another heap and hash seed; outcomes compared',
    'C11': 'checkpoint by pickling at seeded instants of a run, restart in a new process, run continued there; '
           'against the reference model',
    'C12': 'caller buffers overwritten and watched at seeded instants, callbacks that write, re-enter and fail',
    'C13': 'curve searches against pairwise searches with seeded solver failures and concurrent searches',
    'C14': 'interpolation with seeded grids, malformed and failing providers, backend failures; against scipy used '
           'directly',
    'C15': 'seeded schedules of calls on shared method objects; against new objects used once',
    'C16': 'seeded sequences of plots on shared and separate axes, interleaved and aborted; the artists of all axes '
           'against those the calls asked for',
}
NOTE = ('Seeded search: no violation on any explored run, which is evidence and not proof. Trusted: the scheduler '
        '(thread switches and asynchronous failures at byte code boundaries of library code only), the reference '
        'models in dst/, numpy/scipy/csaps and the interpreter. Numerical values are compared with tolerances and '
        'only where the reference is well conditioned.')
NA = 'pure function of its input: no schedule, fault, history or environment is quantified over, so simulation has ' \
     'nothing to decide; '
REASON = {
    'C30': 'sampling curves would be input generation only (C14 compares interpolants with scipy inside of runs)',
    'C31': 'needs exact geometry over all inputs (C13 relates curve searches to pairwise ones, failures included)',
    'C32': 'minimality over all pairs of segments is a statement about real arithmetic',
    'C33': 'invariance under rigid motion of a formula',
    'C34': 'symmetry of arithmetic predicates',
    'C35': 'a formula over all curves and parameters (results of smoothing inside of runs are still judged)',
    'C36': 'defining equations of the predefined curves',
}


def main():
    checks, na = [], []
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        k = p['id']
        if k in HOW:
            checks.append({'property': k, 'quick_cmd': '%s dst/main.py check %s --tier quick' % (PY, k),
                           'thorough_cmd': '%s dst/main.py check %s --tier thorough' % (PY, k),
                           'evidence_file': 'evidence/%s.json' % k, 'technique': TECH + HOW[k],
                           'level': 'exploration', 'level_note': NOTE})
        else:
            na.append({'property': k, 'reason': NA + REASON[k]})
    m = {'version': 1, 'setup_cmd': '%s dst/main.py selftest 3' % PY, 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: all seams are installed from outside (dst/boot.py). Replay: %s dst/main.py replay '
                  'FILE. Seed: VERIF_SEED. Known findings and repaired defects: known-findings.json.' % PY}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
