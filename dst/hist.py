# -*- coding: utf-8 -*-
"""Linearizability of registry and default-method histories (search for a legal sequential order)"""


def linearizable(ops, init, apply, budget=200000):
    """ops: list of dicts with start, end; apply(state, op) -> list of possible next states (empty: illegal).

    Operations with op['optional'] may be left out (their effect may never have happened).
    Returns True, False, or None if the budget is exhausted."""
    n = len(ops)
    must = frozenset(i for i in range(n) if not ops[i].get('optional'))
    seen = set()
    stack = [(frozenset(range(n)), init)]
    while stack:
        left, state = stack.pop()
        if not (left & must):
            return True
        key = (left, state)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > budget:
            return None
        first_end = min(ops[i]['end'] for i in left if i in must)
        for i in left:
            o = ops[i]
            if o['start'] > first_end:
                continue
            dep = o.get('dep')
            if dep is not None and dep in left:
                continue
            for nxt in apply(state, o):
                stack.append((left - {i}, nxt))
    return False


def check_registry(history, kind):
    """Insert-once map: state is a frozenset of (name, value)"""
    ops = []
    for h in history:
        if h.get('kind') != kind or 'start' not in h:
            continue
        o = dict(h)
        if o['res'] == 'aborted':
            if o['op'] != 'reg':
                continue
            o['optional'] = True
        ops.append(o)

    def apply(state, o):
        d = dict(state)
        if o['op'] == 'reg':
            res = o['res']
            if res == 'aborted':
                if o['name'] in d or o['wrong']:
                    return []
                return [state | {(o['name'], o['val'])}]
            if res == 'ok':
                if o['name'] in d or o['wrong']:
                    return []
                return [state | {(o['name'], o['val'])}]
            if res == 'ValueError':
                return [state] if o['name'] in d else []
            return [state] if o['wrong'] else []
        if o['op'] == 'lookup':
            if o['res'] == 'NameError':
                return [state] if o['name'] not in d else []
            return [state] if d.get(o['name']) == o['res'] else []
        if o['op'] == 'list':
            names = o['res']
            return [state] if len(set(names)) == len(names) and set(names) == set(d) else []
        return []
    return linearizable(ops, frozenset(), apply), len(ops)


def check_default(history, initial):
    """Atomic register; an operation that uses the default reads it once"""
    ops = []
    index = {}
    for h in history:
        if h['op'] not in ('setdef', 'getdef', 'use') or 'start' not in h:
            continue
        o = dict(h)
        if o['res'] in ('none', 'NameError'):
            continue
        if o['res'] == 'aborted':
            if o['op'] != 'setdef':
                continue
            o['optional'] = True
        ops.append(o)

    def apply(state, o):
        if o['op'] == 'setdef':
            return [o['name']] if not o.get('bad') else []
        return [state] if o['res'] == state else []
    return linearizable(ops, initial, apply), len(ops)
