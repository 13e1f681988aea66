# -*- coding: utf-8 -*-
"""C10: the same programs alone in a pristine process, and as a part of the work of a long-lived process with another
hash seed, another heap content, other past work (including failed and interrupted work) and other programs at the
same time.  Every outcome has to be the same."""

import hashlib
import json
import os
import pickle
import random
import select
import struct
import subprocess
import sys
import time

import gen
import ops
import profiles
import run

GROUP = 12
SERVERS = 8
HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------------------------------------------------- server

def serve(main):
    """Executes groups received on stdin, each one in a forked process"""
    out = os.fdopen(os.dup(1), 'wb')
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    inp = os.fdopen(os.dup(0), 'rb')
    os.dup2(dn, 0)
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return 0
        group = pickle.loads(inp.read(struct.unpack('>Q', head)[0]))

        def job(send):
            send(('group',) + run.run_group(group))
        msgs, status = main.call(job)
        data = pickle.dumps((status, msgs), 4)
        try:
            out.write(struct.pack('>Q', len(data)) + data)
            out.flush()
        except BrokenPipeError:
            os._exit(0)


def server_env(k):
    return {'PYTHONHASHSEED': str(1 + 7919 * k), 'MALLOC_PERTURB_': str((0, 85, 170, 255, 1, 127, 60, 200)[k % 8])}


class Server:
    def __init__(self, env):
        e = dict(os.environ)
        e.update(env)
        if e.get('MALLOC_PERTURB_') == '0':
            e.pop('MALLOC_PERTURB_')
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'main.py'), 'serve'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e)

    def run(self, group):
        data = pickle.dumps(group, 4)
        self.p.stdin.write(struct.pack('>Q', len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError('the server process ended')
        return pickle.loads(self.p.stdout.read(struct.unpack('>Q', head)[0]))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


# ------------------------------------------------------------------------------------------------------------- groups

def plan_for(seed, i):
    h = hashlib.sha256(('C10d/%d/%d' % (seed, i)).encode()).digest()
    p = gen.Gen(int.from_bytes(h[:6], 'big'), profiles.P['C10']).plan()
    p['env'] = {'warn': p['env']['warn']}
    return p


def group_for(seed, g):
    r = random.Random('C10g/%d/%d' % (seed, g))
    plans = [plan_for(seed, g * GROUP + k) for k in range(GROUP)]
    order = list(range(GROUP))
    r.shuffle(order)
    parts = []
    while order:
        n = r.choice((1, 1, 2, 3, 4))
        idx, order = order[:n], order[n:]
        part = {'idx': idx, 'sched': {'mode': 'random', 'seed': r.randrange(1 << 48),
                                      'p': r.choice((0.3, 0.05, 0.01, 0.002))}}
        if r.random() < 0.3:
            part['sched']['ps'] = r.choice((0.1, 0.5))
        if r.random() < 0.5:
            part['dirty'] = r.randrange(1000)
        if r.random() < 0.3:
            part['gc'] = 1
        if r.random() < 0.35:
            q = gen.Gen(r.randrange(1 << 48), profiles.P[r.choice(('C03', 'C03', 'C09', 'C04', 'C11', 'C01'))]).plan()
            q['crash'] = None
            part['noise'] = q
        parts.append(part)
    return {'plans': plans, 'parts': parts}


def alone(main, plan):
    """Outcomes of a program in a pristine process, and the violations observed on the way"""
    def job(send):
        r = run.run_plan(plan, record=True)
        send(('run', main.slim(r)))
    msgs, status = main.call(job)
    if status == 'harness':
        raise main.HarnessError(msgs[-1][1])
    if not msgs:
        v = main.hang_violation() if status == 'hang' else main.died_violation()
        return {'outcomes': None, 'violations': [v], 'stats': {}, 'steps': 0, 'digest': None, 'crash': None}
    r = msgs[0][1]
    if r['crash']:
        raise main.HarnessError(r['crash'][1])
    return r


def short(v, n=220):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def differences(group, first, second):
    """(plan index, operation, message)"""
    out = []
    for i, (a, b) in enumerate(zip(first, second)):
        if a is None or b is None or b == 'aborted':
            if a is not None and b is None:
                out.append((i, None, 'the program does not end'))
            continue
        if ('crash',) in b:
            out.append((i, None, 'no progress: %s' % (b[('crash',)],)))
            continue
        if not isinstance(a, dict):
            continue
        for key in sorted(a):
            if key not in b:
                out.append((i, key[1], 'the operation was not executed'))
            elif not ops.same_canon(a[key], b[key]):
                name = [o['op'] for o in group['plans'][i]['clients'][0] if o['id'] == key[1]][0]
                out.append((i, key[1], '%s gives %s in a fresh process and %s in a process with other past and '
                                       'concurrent work' % (name, short(a[key]), short(b[key]))))
    return out


def compare(main, server, group, first=None):
    if first is None:
        first = [alone(main, p)['outcomes'] if any(p['clients']) else {} for p in group['plans']]
    status, msgs = server.run(group)
    if status == 'harness':
        raise main.HarnessError(msgs[-1][1])
    if status in ('hang', 'died') or not msgs:
        return first, [None] * len(group['plans']), {}, [(None, None, 'the long-lived process does not end (%s)'
                                                          % status)]
    second, stats = msgs[0][1], msgs[0][2]
    return first, second, stats, differences(group, first, second)


# ------------------------------------------------------------------------------------------------------- minimisation

def only(group, keep):
    """The programs (and unrelated programs) in keep; parts without any are dropped"""
    g = {'plans': group['plans'], 'parts': []}
    for k, part in enumerate(group['parts']):
        q = dict(part)
        q['idx'] = [i for i in part['idx'] if i in keep]
        if 'noise' in q and ('noise', k) not in keep:
            q.pop('noise')
        if q['idx'] or 'noise' in q:
            g['parts'].append(q)
    return g


def minimise(main, server, group, seconds):
    deadline = time.time() + seconds
    tests = [0]

    def fails(g):
        if time.time() > deadline:
            return False
        tests[0] += 1
        used = set(i for p in g['parts'] for i in p['idx'])
        first = [alone(main, p)['outcomes'] if i in used and any(p['clients']) else {}
                 for i, p in enumerate(g['plans'])]
        try:
            for i in range(len(g['plans'])):
                if i not in used:
                    first[i] = None
            return bool(compare(main, server, g, first)[3])
        except main.HarnessError:
            return False

    mm = main.Minimiser('C10', [], None, seconds)
    mm.deadline = deadline
    items = [i for p in group['parts'] for i in p['idx']] + [('noise', k) for k, p in enumerate(group['parts'])
                                                             if 'noise' in p]
    keep = mm.ddmin(items, lambda ks: bool(ks) and fails(only(group, set(ks))))
    group = only(group, set(keep))
    used = sorted(set(i for p in group['parts'] for i in p['idx']))
    m = {i: k for k, i in enumerate(used)}
    group = {'plans': [group['plans'][i] for i in used],
             'parts': [dict(p, idx=[m[i] for i in p['idx']]) for p in group['parts']]}
    for k in range(len(group['parts'])):
        for what in ('dirty', 'gc'):
            if what in group['parts'][k]:
                g = json.loads(json.dumps(group))
                g['parts'][k].pop(what)
                if fails(g):
                    group = g
    everything = [(i, o['id']) for i, p in enumerate(group['plans']) for o in p['clients'][0]]

    def with_ops(ks):
        ks = set(ks)
        g = json.loads(json.dumps(group))
        for i, p in enumerate(g['plans']):
            p['clients'] = [[o for o in p['clients'][0] if (i, o['id']) in ks]]
        return g
    kept = mm.ddmin(everything, lambda ks: bool(ks) and fails(with_ops(ks)))
    return with_ops(kept), tests[0]


# -------------------------------------------------------------------------------------------------------------- check

def worker(main, seed, k, groups, deadline):
    def job(send):
        server = Server(server_env(k))
        try:
            for g in range(k, groups, SERVERS):
                if time.time() > deadline:
                    return
                group = group_for(seed, g)
                firsts = []
                for i, p in enumerate(group['plans']):
                    r = alone(main, p)
                    firsts.append(r['outcomes'])
                    out = {x: r.get(x) for x in ('violations', 'stats', 'steps', 'digest', 'switches', 'log',
                                                 'contexts', 'fired', 'crash', 'seed')}
                    send(('alone', g, i, out))
                _, second, stats, diff = compare(main, server, group, firsts)
                send(('group', g, stats, diff, len(group['parts'])))
        finally:
            server.close()
    return job


def check(main, tier, seed, runs, wall, minimise_time):
    s = main.Search('C10', tier, seed, runs, wall)
    groups = max(1, runs // (2 * GROUP))
    deadline = s.start + wall
    live = {}
    pending = list(range(SERVERS))
    totals = {'groups': 0, 'parts': 0, 'outcomes': 0}
    found = None
    try:
        while (pending or live) and found is None:
            while pending and len(live) < main.NPROC:
                k = pending.pop(0)
                c = main.Child(worker(main, seed, k, groups, deadline))
                live[c.fd] = c
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                c = live[fd]
                msgs = c.read()
                if msgs is None:
                    raise main.HarnessError('a worker process died')
                for m in msgs:
                    if m[0] == 'harness':
                        raise main.HarnessError(m[1])
                    if m[0] == 'end':
                        del live[fd]
                        c.close()
                    elif m[0] == 'alone':
                        plan = plan_for(seed, m[1] * GROUP + m[2])
                        s.consume(m[1] * GROUP + m[2], plan, m[3])
                        for v in m[3]['violations']:
                            if 'C10' in v['tags'] or 'C10' in v['maybe']:
                                s.candidate(m[1] * GROUP + m[2], m[1] * GROUP + m[2], plan, v)
                        if s.found and found is None:
                            found = ('plan', s.found[0])
                    else:
                        totals['groups'] += 1
                        totals['parts'] += m[4]
                        s.done += GROUP
                        for k2, v in m[2].items():
                            s.stats[k2] += v
                        if m[3] and found is None:
                            found = confirm(main, seed, m[1])
            now = time.time()
            for fd, c in list(live.items()):
                if now - c.last > 2.5 * main.HANG:
                    raise main.HarnessError('a worker process hangs')
    finally:
        for c in live.values():
            c.close(kill=True)
    extra = {'programs_alone_and_among_others': totals['groups'] * GROUP, 'groups': totals['groups'],
             'parts': totals['parts'],
             'interpreters': [server_env(k) for k in range(SERVERS)],
             'rule': 'One evaluation is one simulated execution of a generated program (a function of its seed); each '
                     'program is executed alone in a pristine process and again within a long-lived one (other hash '
                     'seed, other heap content, after other programs, after failed and interrupted operations, '
                     'interleaved with other programs at byte code granularity), and all outcomes are compared. It '
                     'is non-trivial when at least two operations were executed and judged; distinct by the digest '
                     'of plan seed, performed switches and counters.'}
    if found is None:
        s.evidence(0, extra)
        print('C10: held on %d programs in %d groups, %d executions, %.0f s' % (
            totals['groups'] * GROUP, totals['groups'], s.done, s.elapsed()))
        return 0
    if found[0] == 'plan':
        i, prefix, plan, v = found[1]
        m = main.Minimiser('C10', prefix, plan, minimise_time)
        w = m.run()
        content = {'property': 'C10', 'format': 1, 'index': i, 'seed': seed, 'plan_seed': plan['seed'],
                   'violation': w or v, 'prefix': m.prefix if w else prefix, 'plan': m.plan if w else plan}
        path = main.write_replay('C10', content)
        s.evidence(1, extra)
        main.report('C10', path, w or v)
        return 1
    _, g, group, env, diff = found
    server = Server(env)
    try:
        small, tests = minimise(main, server, group, minimise_time)
        _, _, _, d2 = compare(main, server, small)
        if d2:
            group, diff = small, d2
    finally:
        server.close()
    v = violation(diff)
    content = {'property': 'C10', 'kind': 'differential', 'format': 1, 'seed': seed, 'group_index': g, 'group': group,
               'env': env, 'violation': v, 'minimiser_tests': tests}
    path = main.write_replay('C10', content)
    s.evidence(1, extra)
    main.report('C10', path, v)
    return 1


def violation(diff):
    i, op, msg = diff[0]
    return {'tags': ['C10'], 'maybe': [], 'kind': 'different outcome', 'detail': msg, 'client': i, 'op': op}


def confirm(main, seed, g):
    """Everything again in new processes"""
    env = server_env(g % SERVERS)
    group = group_for(seed, g)
    server = Server(env)
    try:
        diff = compare(main, server, group)[3]
        if diff and compare(main, server, group)[3]:
            v = violation(diff)
            if main.is_known('C10', v):
                return None
            return 'group', g, group, env, diff
    finally:
        server.close()
    return None


def replay(main, c, path):
    server = Server(c['env'])
    try:
        diff = compare(main, server, c['group'])[3]
    finally:
        server.close()
    if diff:
        main.report('C10', path, violation(diff))
        return 1
    print('no violation')
    return 0
