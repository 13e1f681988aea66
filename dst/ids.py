# -*- coding: utf-8 -*-
"""Identities of objects behind a seam.

The modules of the library see this `id` instead of the built-in one (none of them uses it today).  Like the real one it is
unique among the objects alive, and as a memory allocator does it gives the identity of an object which is gone to
the next object of the same type -- always, and not just when the allocator happens to reuse the memory.
"""

import builtins
import gc
import sys
import weakref

table = {}            # real identity -> (weak reference, simulated identity, type)
free = {}             # type -> simulated identities of objects which are gone
state = {'used': False, 'next': 1 << 61, 'reused': 0}


def id(obj):  # noqa
    real = builtins.id(obj)
    if sys._getframe(1).f_code.co_name in ('__deepcopy__', '__copy__', '__reduce__', '__reduce_ex__'):
        return real            # the keys of `copy`'s and `pickle`'s memory are real identities
    entry = table.get(real)
    if entry is not None and entry[0]() is obj:
        return entry[1]
    try:
        ref = weakref.ref(obj)
    except TypeError:
        return real
    state['used'] = True
    if entry is not None and entry[0]() is None:
        free.setdefault(entry[2], []).append(entry[1])
    pool = free.get(type(obj))
    if pool:
        sim = pool.pop()
        state['reused'] += 1
    else:
        state['next'] += 16
        sim = state['next']
    table[real] = (ref, sim, type(obj))
    return sim


def collect(always=False):
    """Objects nobody refers to are gone now"""
    if not (always or state['used']):
        return
    gc.collect()
    for real, (ref, sim, tp) in list(table.items()):
        if ref() is None:
            free.setdefault(tp, []).append(sim)
            del table[real]


def install(package):
    for name, mod in list(sys.modules.items()):
        if (name == package or name.startswith(package + '.')) and 'id' not in vars(mod):
            mod.id = id
