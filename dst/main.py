# -*- coding: utf-8 -*-
"""Checks of the properties by seeded simulation.

    main.py check C07 [--tier quick|thorough] [--runs N] [--wall SECONDS] [--seed S]
    main.py replay FILE
    main.py selftest [N]
    main.py serve                  (internal: another interpreter for C10)

The process which starts here never executes the library: every run is executed in a forked child.
"""

import base64
import collections
import hashlib
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import boot  # noqa

boot.import_all()

import gen  # noqa
import profiles  # noqa
import run  # noqa
import ops  # noqa

NPROC = int(os.environ.get('DST_PROCS') or min(8, os.cpu_count() or 1))
BATCH = 24
HANG = 120.0             # seconds of silence of a child until it counts as stuck
TIERS = {'quick': {'wall': 80.0, 'runs': 40000}, 'thorough': {'wall': 600.0, 'runs': 2000000}}


# ------------------------------------------------------------------------------------------------ child processes

class Child:
    """A forked process that executes a job and streams pickled messages"""

    def __init__(self, job, tag=None):
        self.tag = tag
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                out = os.fdopen(w, 'wb')

                def send(msg):
                    data = pickle.dumps(msg, 4)
                    out.write(struct.pack('>Q', len(data)) + data)
                    out.flush()
                try:
                    job(send)
                    send(('end',))
                    code = 0
                except BaseException:
                    import traceback
                    send(('harness', traceback.format_exc()))
            finally:
                os._exit(code)
        os.close(w)
        self.pid = pid
        self.fd = r
        self.buf = b''
        self.last = time.time()
        self.closed = False

    def read(self):
        """New messages; None at the end of the stream"""
        data = os.read(self.fd, 1 << 20)
        self.last = time.time()
        if not data:
            return None
        self.buf += data
        out = []
        while len(self.buf) >= 8:
            n = struct.unpack('>Q', self.buf[:8])[0]
            if len(self.buf) < 8 + n:
                break
            out.append(pickle.loads(self.buf[8:8 + n]))
            self.buf = self.buf[8 + n:]
        return out

    def close(self, kill=False):
        if self.closed:
            return
        self.closed = True
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(self.fd)
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def call(job, timeout=HANG):
    """Runs job(send) in a child; returns (messages, status); status: 'end', 'harness', 'hang', 'died'"""
    c = Child(job)
    msgs = []
    deadline = time.time() + timeout
    try:
        while True:
            left = deadline - time.time()
            if left <= 0:
                c.close(kill=True)
                return msgs, 'hang'
            r, _, _ = select.select([c.fd], [], [], left)
            if not r:
                continue
            new = c.read()
            if new is None:
                return msgs, 'died'
            for m in new:
                if m[0] == 'end':
                    return msgs, 'end'
                if m[0] == 'harness':
                    return msgs + [m], 'harness'
                msgs.append(m)
                deadline = time.time() + timeout
    finally:
        c.close(kill=True)


class HarnessError(Exception):
    pass


# ----------------------------------------------------------------------------------------------------------- plans

def plan_of(prop, seed, index):
    h = hashlib.sha256(('%s/%d/%d' % (prop, seed, index)).encode()).digest()
    s = int.from_bytes(h[:6], 'big')
    return gen.Gen(s, profiles.P[prop]).plan()


def slim(res):
    """What the parent needs"""
    out = {k: res.get(k) for k in ('seed', 'switches', 'steps', 'log', 'contexts', 'stats', 'violations', 'crash',
                                   'fired', 'digest', 'dead', 'blob', 'outcomes')}
    return out


def execute(plans, timeout=HANG):
    """Executes plans one after the other in one new process; results of the last one.  A checkpoint which it took
    is restored in a process of its own"""
    def job(send):
        for i, p in enumerate(plans):
            r = run.run_plan(p)
            send(('run', i, slim(r)))
            if r.get('dead') or r['crash']:
                return
    msgs, status = call(job, timeout)
    if status == 'harness':
        raise HarnessError(msgs[-1][1])
    res = None
    for m in msgs:
        if m[1] == len(plans) - 1:
            res = m[2]
    if res is None:
        if status == 'hang':
            return {'violations': [hang_violation()], 'log': None, 'crash': None, 'dead': True, 'digest': None,
                    'switches': 0, 'stats': {}}
        if status == 'died':
            return {'violations': [died_violation()], 'log': None, 'crash': None, 'dead': True, 'digest': None,
                    'switches': 0, 'stats': {}}
        return None
    if res['crash']:
        raise HarnessError(res['crash'][1])
    if res['blob']:
        r2 = restart(plans[-1], res['blob'], timeout)
        res['violations'] = res['violations'] + r2['violations']
        res['digest'] = '%s/%s' % (res['digest'], r2['digest'])
    return res


def restart(plan, blob, timeout=HANG):
    def job(send):
        send(('run', 0, slim(run.run_plan(plan, restored=blob))))
    msgs, status = call(job, timeout)
    if status == 'harness':
        raise HarnessError(msgs[-1][1])
    if not msgs:
        return {'violations': [hang_violation() if status == 'hang' else died_violation()], 'digest': None,
                'stats': {}, 'dead': True}
    if msgs[0][2]['crash']:
        raise HarnessError(msgs[0][2]['crash'][1])
    return msgs[0][2]


def hang_violation():
    return {'tags': list(run.ALL), 'maybe': [], 'kind': 'no progress', 'detail': 'the run does not end', 'client': None,
            'op': None}


def died_violation():
    return {'tags': list(run.ALL), 'maybe': [], 'kind': 'process died', 'detail': 'the process running the '
            'simulation was killed', 'client': None, 'op': None}


# ----------------------------------------------------------------------------------------------------- attribution

def without_faults(plan):
    p = json.loads(json.dumps(plan))
    for ol in p['clients']:
        for o in ol:
            o.pop('fault', None)
            if o.get('cb'):
                o['cb'].pop('exc', None)
    return p


def without_pickle(plan):
    p = json.loads(json.dumps(plan))
    p['crash'] = None
    for i, ol in enumerate(p['clients']):
        p['clients'][i] = [o for o in ol if o['op'] != 'pickle']
    return p


def without_scribbling(plan):
    p = json.loads(json.dumps(plan))
    p['noscribble'] = True
    return p


def alone(plan, client, op):
    """The failing operation and what it needs, nothing else"""
    p = without_faults(plan)
    p['crash'] = None
    if client is None or client < 0 or op is None or client >= len(p['clients']):
        return None
    by = {o['id']: o for o in p['clients'][client]}
    need, todo = set(), [op]
    while todo:
        k = todo.pop()
        if k in need or k not in by:
            continue
        need.add(k)

        def walk(v):
            if isinstance(v, dict):
                if 's' in v and 'r' in v and isinstance(v['r'], int):
                    todo.append(v['r'])
                for x in v.values():
                    walk(x)
            elif isinstance(v, list):
                for x in v:
                    walk(x)
        walk(by[k])
    p['clients'] = [[o for o in ol if o['id'] in need] if i == client else [] for i, ol in enumerate(p['clients'])]
    return p


def same_failure(v, res):
    """Does the same operation fail (v: the violation which is being explained)"""
    for w in res['violations']:
        if set(w['tags']) & set(v['tags']) and (v['op'] is None or (w['client'], w['op']) == (v['client'], v['op'])
                                                or w['kind'] == v['kind']):
            return True
    return False


def relevant(prop, v, prefix, plan, depth=0):
    """Is the violation one of this property"""
    if prop in v['tags']:
        return True
    if prop not in v['maybe']:
        return False
    variant = None
    if prop in ('C03', 'C04'):
        variant = without_faults(plan)
    elif prop == 'C11':
        variant = without_pickle(plan)
    elif prop == 'C12':
        variant = without_scribbling(plan)
    else:
        # alone in a fresh process, without anything that was done before
        variant = alone(plan, v['client'], v['op'])
        prefix = ()
    if variant is None:
        return False
    if variant['sched']['mode'] == 'explicit':
        pass
    res = execute(list(prefix) + [variant])
    return res is not None and not same_failure(v, res)


# ---------------------------------------------------------------------------------------------------- minimisation

def explicit(plan, log):
    p = json.loads(json.dumps(plan))
    p['sched'] = {'mode': 'explicit', 'switches': [list(x) for x in log]}
    return p


class Minimiser:
    def __init__(self, prop, prefix, plan, budget):
        self.prop = prop
        self.prefix = list(prefix)
        self.plan = plan
        self.deadline = time.time() + budget
        self.tests = 0

    def fails(self, prefix, plan):
        self.tests += 1
        try:
            res = execute(prefix + [plan], timeout=60)
        except HarnessError:
            return None
        if res is None:
            return None
        for v in res['violations']:
            try:
                if relevant(self.prop, v, prefix, plan):
                    return v, res
            except HarnessError:
                pass
        return None

    def timeup(self):
        return time.time() > self.deadline

    def ddmin(self, items, test):
        """Smaller list for which test(list) holds"""
        n = 2
        items = list(items)
        if items and not self.timeup() and test([]):
            return []
        while len(items) >= 2 and not self.timeup():
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size:]
                if self.timeup():
                    return items
                if test(cand):
                    items = cand
                    n = max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def run(self):
        first = self.fails(self.prefix, self.plan)
        if first is None:
            return None
        v, res = first
        if self.prefix:
            def with_prefix(pf):
                return self.fails(pf, self.plan) is not None
            self.prefix = self.ddmin(self.prefix, with_prefix)
        if res.get('log') is not None and self.plan['sched']['mode'] == 'random':
            p = explicit(self.plan, res['log'])
            if self.fails(self.prefix, p):
                self.plan = p
        plan = self.plan
        # operations
        allops = [(c, o['id']) for c, ol in enumerate(plan['clients']) for o in ol]

        def with_ops(keep, base=None):
            keep = set(keep)
            p = dict(base or self.plan)
            p['clients'] = [[o for o in ol if (c, o['id']) in keep] for c, ol in enumerate(p['clients'])]
            return p
        kept = self.ddmin(allops, lambda ks: self.fails(self.prefix, with_ops(ks)) is not None)
        self.plan = with_ops(kept)
        # faults
        fl = [(c, o['id']) for c, ol in enumerate(self.plan['clients']) for o in ol if 'fault' in o]

        def with_faults(keep):
            keep = set(keep)
            p = json.loads(json.dumps(self.plan))
            for c, ol in enumerate(p['clients']):
                for o in ol:
                    if (c, o['id']) not in keep:
                        o.pop('fault', None)
            return p
        kept = self.ddmin(fl, lambda ks: self.fails(self.prefix, with_faults(ks)) is not None)
        self.plan = with_faults(kept)
        # environment
        for k in list(self.plan.get('env', {})):
            p = json.loads(json.dumps(self.plan))
            p['env'].pop(k)
            if not self.timeup() and self.fails(self.prefix, p):
                self.plan = p
        if self.plan.get('crash'):
            p = json.loads(json.dumps(self.plan))
            p['crash'] = None
            if not self.timeup() and self.fails(self.prefix, p):
                self.plan = p
        # switches
        if self.plan['sched']['mode'] == 'explicit':
            def with_switches(sw):
                p = dict(self.plan)
                p['sched'] = {'mode': 'explicit', 'switches': sw}
                return p
            live = set((c, o['id']) for c, ol in enumerate(self.plan['clients']) for o in ol)
            sw = [s for s in self.plan['sched']['switches'] if (s[0], s[1]) in live or s[1] in ('start', 'end')]
            if not self.fails(self.prefix, with_switches(sw)):
                sw = self.plan['sched']['switches']
            sw = self.ddmin(sw, lambda x: self.fails(self.prefix, with_switches(x)) is not None)
            self.plan = with_switches(sw)
        final = self.fails(self.prefix, self.plan)
        return (final or first)[0]


# ------------------------------------------------------------------------------------------------------- reporting

def out_dir():
    d = os.path.join(ROOT, 'out', 'replays')
    os.makedirs(d, exist_ok=True)
    return d


def known_findings():
    """(property, kind, pattern) of the findings which are not repaired"""
    path = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return data.get('open', [])


def is_known(prop, v):
    for k in known_findings():
        if k['property'] == prop and k['kind'] == v['kind'] and re.search(k['detail'], v['detail']):
            return k
    return None


def write_replay(prop, content):
    data = json.dumps(content, indent=1, sort_keys=True)
    name = '%s-%s.json' % (prop, hashlib.sha1(data.encode()).hexdigest()[:12])
    path = os.path.join(out_dir(), name)
    with open(path, 'w') as f:
        f.write(data)
    return path


# --------------------------------------------------------------------------------------------------------- the search

class Search:
    def __init__(self, prop, tier, seed, runs, wall):
        self.prop, self.tier, self.seed, self.runs, self.wall = prop, tier, seed, runs, wall
        self.start = time.time()
        self.stats = collections.Counter()
        self.digests = set()
        self.schedules = set()
        self.contexts = set()
        self.steps = self.switches = self.done = self.restarts = self.nontrivial = 0
        self.samples = []
        self.found = []           # (plan, prefix plans, violation)
        self.other = collections.Counter()
        self.unrelated = collections.Counter()
        self.first_digest = {}

    def elapsed(self):
        return time.time() - self.start

    def consume(self, index, plan, res, phase=1):
        for k, v in res['stats'].items():
            self.stats[k] += v
        self.steps += res.get('steps') or 0
        self.switches += res.get('switches') or 0
        if phase == 1:
            self.done += 1
        else:
            self.restarts += 1
        self.contexts.update(tuple(c) for c in res.get('contexts') or ())
        if res.get('log') is not None:
            self.schedules.add(hashlib.sha1(json.dumps(res['log']).encode()).digest()[:8])
        judged = res['stats'].get('ops', 0) - res['stats'].get('skipped', 0)
        if res.get('digest') and judged >= 2 and (res.get('switches') or res.get('fired') or judged >= 2):
            key = (plan['seed'], res['digest'])
            if key not in self.digests:
                self.digests.add(key)
                self.nontrivial += 1
        if phase == 1 and index < 24:
            self.first_digest[index] = res.get('digest')
        if len(self.samples) < 2 and judged >= 3 and (res.get('switches') or 0) > 3:
            self.samples.append({'index': index, 'seed': plan['seed'], 'operations': [
                [o['op'] for o in ol] for ol in plan['clients']], 'faults': [
                    dict(o['fault'], client=c, op=o['id']) for c, ol in enumerate(plan['clients'])
                    for o in ol if 'fault' in o], 'fired': res['fired'], 'environment': plan['env'],
                'switches performed [client, operation, step, next client]': res['log'][:12],
                'number of switches': res['switches'], 'bytecode steps': res['steps']})

    def batch_job(self, lo, hi):
        prop, seed = self.prop, self.seed

        def job(send):
            for i in range(lo, hi):
                p = plan_of(prop, seed, i)
                send(('begin', i))
                r = run.run_plan(p)
                send(('run', i, slim(r)))
                if r.get('dead') or r['crash']:
                    return
        return job

    def restart_job(self, blobs):
        prop, seed = self.prop, self.seed

        def job(send):
            for i, blob in blobs:
                p = plan_of(prop, seed, i)
                send(('begin', i))
                send(('restart', i, slim(run.run_plan(p, restored=blob))))
        return job

    def explore(self):
        size = BATCH if self.prop != 'C16' else 6
        queue = [('batch', lo, min(lo + size, self.runs)) for lo in range(0, self.runs, size)]
        queue.reverse()
        live = {}
        try:
            while (queue or live) and not self.found:
                while queue and len(live) < NPROC and self.elapsed() < self.wall:
                    kind, a, b = queue.pop()
                    c = Child(self.batch_job(a, b) if kind == 'batch' else self.restart_job(b))
                    c.kind, c.lo, c.hi, c.current, c.blobs, c.dead = kind, a, b, None, [], False
                    live[c.fd] = c
                if not live:
                    break
                ready, _, _ = select.select(list(live), [], [], 1.0)
                now = time.time()
                for fd in ready:
                    c = live[fd]
                    msgs = c.read()
                    if msgs is None:
                        del live[fd]
                        c.close(kill=True)
                        self.lost(c, died_violation(), queue)
                        continue
                    for m in msgs:
                        if m[0] == 'begin':
                            c.current = m[1]
                        elif m[0] == 'harness':
                            raise HarnessError(m[1])
                        elif m[0] == 'end':
                            del live[fd]
                            c.close()
                            if c.blobs:
                                queue.append(('restart', c.lo, c.blobs))
                            if c.dead and c.kind == 'batch' and c.current + 1 < c.hi:
                                queue.append(('batch', c.current + 1, c.hi))
                        else:
                            self.result(c, m)
                for fd, c in list(live.items()):
                    if now - c.last > HANG and fd not in ready:
                        del live[fd]
                        c.close(kill=True)
                        self.lost(c, hang_violation(), queue)
        finally:
            for c in live.values():
                c.close(kill=True)

    def result(self, c, m):
        kind, i, res = m
        plan = plan_of(self.prop, self.seed, i)
        if res['crash']:
            raise HarnessError('run %d: %s' % (i, res['crash'][1]))
        self.consume(i, plan, res, 1 if kind == 'run' else 2)
        c.current = i
        if res.get('dead'):
            c.dead = True
        if res.get('blob'):
            c.blobs.append((i, res['blob']))
        cand = [v for v in res['violations'] if self.prop in v['tags'] or self.prop in v['maybe']]
        for v in res['violations']:
            if v not in cand:
                self.unrelated['%s %s' % ('/'.join(v['tags']), v['kind'])] += 1
        cand.sort(key=lambda v: self.prop not in v['tags'])
        for v in cand:
            self.candidate(i, c.lo if kind == 'run' else i, plan, v)
            if self.found:
                return

    def lost(self, c, v, queue):
        """The child hung or died in the run c.current"""
        i = c.current
        if i is None:
            raise HarnessError('a child process %s before its first run' % v['kind'])
        if c.kind == 'restart':
            raise HarnessError('a restarted process: %s in run %d' % (v['kind'], i))
        self.candidate(i, c.lo, plan_of(self.prop, self.seed, i), v)
        if i + 1 < c.hi:
            queue.append(('batch', i + 1, c.hi))

    def candidate(self, i, lo, plan, v):
        """Confirms by executing the run again: alone in a new process, else after the runs before it"""
        if len(self.found) or self.other[v['kind']] > 40:
            return
        for prefix in ((), [plan_of(self.prop, self.seed, k) for k in range(lo, i)]):
            if prefix == [] and i == lo:
                continue
            res = execute(list(prefix) + [plan])
            if res is None:
                continue
            for w in sorted(res['violations'], key=lambda w: self.prop not in w['tags']):
                if not (self.prop in w['tags'] or self.prop in w['maybe']):
                    continue
                if relevant(self.prop, w, prefix, plan):
                    k = is_known(self.prop, w)
                    if k:
                        self.other['known: ' + k['detail']] += 1
                        continue
                    self.found.append((i, list(prefix), plan, w))
                    return
            if any(w['kind'] == v['kind'] for w in res['violations']):
                break
        self.other[v['kind']] += 1

    def reproducible(self, n=24):
        """The same seeds again, in one other process: the executions have to be the same"""
        same = total = 0
        prop, seed = self.prop, self.seed
        idx = sorted(k for k, d in self.first_digest.items() if d)[:n]

        def job(send):
            for i in idx:
                send(('run', i, run.run_plan(plan_of(prop, seed, i))['digest']))
        msgs, status = call(job)
        for m in msgs:
            total += 1
            same += m[2] == self.first_digest[m[1]]
        return same, total

    def evidence(self, nviol, extra=None):
        wall = self.elapsed()
        faults = {k[6:]: v for k, v in sorted(self.stats.items()) if k.startswith('fault.')}
        opsc = {k[3:]: v for k, v in sorted(self.stats.items()) if k.startswith('op.')}
        cov = {
            'evaluations': self.done + self.restarts,
            'distinct_nontrivial': self.nontrivial,
            'rule': 'One evaluation is one simulated execution of a generated plan (shared objects, clients, '
                    'operations, faults, schedule; a function of its seed). It is non-trivial when at least two '
                    'operations were executed and judged; it is distinct by the digest of the plan seed, the '
                    'performed context switches, the faults that fired and the counters of the run.',
            'samples': self.samples or [{'note': 'no run with context switches was executed'}],
            'runs_per_hour': int((self.done + self.restarts) * 3600 / max(wall, 1e-3)),
            'seeds_per_hour': int(self.done * 3600 / max(wall, 1e-3)),
            'simulated_steps': self.steps,
            'simulated_time': '%d bytecode steps; the library has no clocks or timers, steps are the only time'
                              % self.steps,
            'operations': opsc,
            'operations_judged': self.stats['ops'] - self.stats['skipped'],
            'undecided_by_reference': self.stats['undecided'],
            'faults_injected': faults,
            'faults_planned_but_not_reached': self.stats['fault.unreached'],
            'context_switches': self.switches,
            'distinct_schedules': len(self.schedules),
            'distinct_interleaved_operation_pairs': len(self.contexts),
            'restarts_in_new_process': self.restarts,
            'histories_checked': {k: v for k, v in self.stats.items() if k.startswith('history.')},
            'real_code': ['skcurve (all modules, from /repo working tree)', 'numpy', 'scipy', 'csaps', 'networkx',
                          'cached_property', 'pickle', 'copy'] + ['matplotlib'] * (self.prop == 'C16'),
            'simulated_or_stubbed': ['thread scheduler (one client runs at a time, seeded)',
                                     'threading.Lock/RLock (cooperative)',
                                     'numerical backend entry points (real code, failure injection in front)',
                                     'user callbacks, grid providers, metrics and methods (harness code)'],
            'other_properties_observed': dict(self.unrelated),
        }
        if extra:
            cov.update(extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': ['switches and asynchronous failures happen at bytecode boundaries of library code, not '
                              'inside of numpy, scipy and interpreter internals',
                              'values are compared with a reference only where the reference is well conditioned'],
              'wall_s': round(wall, 2), 'violations': nviol}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        os.replace(path + '.tmp', path)


def announce_known(prop):
    for k in known_findings():
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))


def report(prop, path, v, tests=None):
    print('%s of %s: %s' % (v['kind'], prop, v['detail']))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()


def check(prop, tier, seed, runs, wall, minimise=60.0):
    announce_known(prop)
    if prop == 'C10':
        import differential
        return differential.check(sys.modules[__name__], tier, seed, runs, wall, minimise)
    s = Search(prop, tier, seed, runs, wall)
    s.explore()
    same, total = s.reproducible() if not s.found else (0, 0)
    extra = {'repeated_executions_identical': '%d of %d' % (same, total)}
    if not s.found:
        s.evidence(0, extra)
        print('%s: held on %d runs (%d restarts), %d distinct schedules, %d steps, %.0f s' % (
            prop, s.done, s.restarts, len(s.schedules), s.steps, s.elapsed()))
        return 0
    i, prefix, plan, v = s.found[0]
    m = Minimiser(prop, prefix, plan, minimise)
    w = m.run()
    content = {'property': prop, 'format': 1, 'index': i, 'seed': seed, 'plan_seed': plan['seed'],
               'violation': w or v, 'prefix': m.prefix if w else prefix, 'plan': m.plan if w else plan,
               'minimiser_tests': m.tests}
    path = write_replay(prop, content)
    extra['minimiser_tests'] = m.tests
    s.evidence(1, extra)
    report(prop, path, w or v)
    return 1


def replay(path):
    with open(path) as f:
        c = json.load(f)
    prop = c['property']
    if c.get('kind') == 'differential':
        import differential
        return differential.replay(sys.modules[__name__], c, path)
    res = execute(c['prefix'] + [c['plan']])
    for v in (res or {'violations': []})['violations']:
        if relevant(prop, v, c['prefix'], c['plan']):
            report(prop, path, v)
            return 1
    print('no violation')
    return 0


def selftest(n):
    """The same seeds in one process, one process each, and in reverse order give the same executions"""
    bad = total = 0
    for prop in sorted(profiles.P):
        def forward(send, prop=prop):
            for i in range(n):
                send(('run', i, run.run_plan(plan_of(prop, 5, i))['digest']))

        def backward(send, prop=prop):
            for i in reversed(range(n)):
                send(('run', i, run.run_plan(plan_of(prop, 5, i))['digest']))
        a = {m[1]: m[2] for m in call(forward)[0]}
        b = {m[1]: m[2] for m in call(backward)[0]}
        c = {}
        for i in range(n):
            c[i] = call(lambda send: send(('run', i, run.run_plan(plan_of(prop, 5, i))['digest'])))[0][0][2]
        for i in range(n):
            total += 1
            if not (a.get(i) == b.get(i) == c.get(i)) or a.get(i) is None:
                bad += 1
                print(prop, i, a.get(i), b.get(i), c.get(i))
    h = hashlib.sha1(json.dumps(sorted(a.items())).encode()).hexdigest()
    print('selftest: %d executions, %d differ, last digest %s' % (total, bad, h))
    return 2 if bad else 0


def main(argv):
    if argv[:1] == ['check']:
        prop = argv[1]
        opt = dict(zip(argv[2::2], argv[3::2]))
        tier = opt.get('--tier') or os.environ.get('VERIF_TIER') or 'quick'
        seed = int(opt.get('--seed') or os.environ.get('VERIF_SEED') or 1)
        t = dict(TIERS[tier])
        if tier == 'quick' and prop == 'C10':
            t['wall'] *= 1.6         # every program runs in several processes
        try:
            return check(prop, tier, seed, int(opt.get('--runs') or t['runs']), float(opt.get('--wall') or t['wall']))
        except HarnessError as err:
            print('harness error: %s' % err)
            return 2
    if argv[:1] == ['replay']:
        return replay(argv[1])
    if argv[:1] == ['selftest']:
        return selftest(int(argv[1]) if len(argv) > 1 else 12)
    if argv[:1] == ['serve']:
        import differential
        return differential.serve(sys.modules[__name__])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
