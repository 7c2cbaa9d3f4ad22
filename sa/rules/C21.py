"""The component registry against a reference definition: client code with symbolic components and types on a fresh registry,
the registry class instantiated through its metaclass."""
from ..agree import agree
from ..program import Broken
from ..q import S

OPTS = {'meta': True, 'events': True}
TYPES = {'c': 'obj', 'd': 'obj', 'e': 'obj', 'k': 'str', 'k2': 'str', 'k3': 'str', 'sink': 'fn', 'f': 'fn'}
PRE = 'assert k != k2\nassert c is not None\nassert not (c == d)\nassert d is not None\n'
ON = 'listen_component_registered_event(lambda c, t: sink(1, c, k in t, k2 in t, len(t)))\nlisten_component_unregistered_event(lambda c, t: sink(2, c, k in t, k2 in t, len(t)))\n'
HAS = 'r = (%s)\n' % ', '.join('%s in get_components_by_type(%s)' % (a, b) for b in ('k', 'k2') for a in ('c', 'd'))


def where(ctx, cls, name):
    try:
        return ctx.method('Registry', cls, name, None)[0] if cls else ctx.prog.funcs.get('Registry.' + name)
    except Broken:
        return None


def sinks(e):
    return e.kind == 'call' and e.recv in (S('sink'), S('f'))


def go(ctx, what, params, impl, ref, w, **kw):
    return agree(ctx, what, 'Registry', params, PRE + impl, PRE + ref, observe=sinks, w=w, argtypes=TYPES, opts=OPTS, **kw)


P = 'c, d, k, k2, sink'


def register(ctx):
    """a registered component is found under exactly its types and announced once with them"""
    w = where(ctx, 'ComponentManager', 'register')
    go(ctx, 'register one type', P, ON + 'register_component(c, {k})\n' + HAS, 'sink(1, c, True, False, 1)\nr = (True, False, False, False)\n', w, total=True)
    go(ctx, 'register two types', P, ON + 'register_component(c, {k, k2})\n' + HAS, 'sink(1, c, True, True, 2)\nr = (True, False, True, False)\n', w, total=True)
    go(ctx, 'register no type', P, ON + 'register_component(c, set())\n' + HAS, 'sink(1, c, False, False, 0)\nr = (False, False, False, False)\n', w, total=True)
    go(ctx, 'register two components', P, 'register_component(c, {k})\n' + ON + 'register_component(d, {k})\n' + HAS, 'sink(1, d, True, False, 1)\nr = (True, True, False, False)\n', w, total=True)
    go(ctx, 'register for a further type', P, 'register_component(c, {k})\n' + ON + 'register_component(c, {k2})\n' + HAS, 'sink(1, c, False, True, 1)\nr = (True, False, True, False)\n', w, total=True)
    go(ctx, 'register, listener looks', P, 'listen_component_registered_event(lambda x, t: sink(x in get_components_by_type(k), x in get_components_by_type(k2)))\nregister_component(c, {k, k2})\n', 'sink(True, True)\n', w, total=True)
    go(ctx, 'register keeps its own types', P, 't = {k}\nregister_component(c, t)\nt.clear()\nunregister_component(c)\n' + HAS, 'r = (False, False, False, False)\n', w, total=True)
    go(ctx, 'register twice', P, 'register_component(c, {k})\n' + ON + 'x = 0\ntry:\n    register_component(c, {k2, k})\nexcept AssertionError:\n    x = 1\n' + HAS + 'r = (x, r)\n',
       'r = (1, (True, False, False, False))\n', w)


def unregister(ctx):
    """an unregistered component is gone from exactly the given types, all of its types if none are given; announced once with those types"""
    w = where(ctx, 'ComponentManager', 'unregister')
    two = 'register_component(c, {k, k2})\n'
    go(ctx, 'unregister all', P, two + ON + 'unregister_component(c)\n' + HAS, 'sink(2, c, True, True, 2)\nr = (False, False, False, False)\n', w, total=True)
    go(ctx, 'unregister all', P, two + 'register_component(d, {k, k2})\n' + ON + 'unregister_component(c)\n' + HAS, 'sink(2, c, True, True, 2)\nr = (False, True, False, True)\n', w, total=True)
    go(ctx, 'unregister one', P, two + ON + 'unregister_component(c, {k})\n' + HAS, 'sink(2, c, True, False, 1)\nr = (False, False, True, False)\n', w, total=True)
    go(ctx, 'unregister one', P, two + ON + 'unregister_component(c, {k2})\n' + HAS, 'sink(2, c, False, True, 1)\nr = (True, False, False, False)\n', w, total=True)
    go(ctx, 'unregister one, then the rest', P, two + 'unregister_component(c, {k})\n' + ON + 'unregister_component(c)\n' + HAS, 'sink(2, c, False, True, 1)\nr = (False, False, False, False)\n', w, total=True)
    go(ctx, 'unregister no type', P, two + ON + 'unregister_component(c, set())\n' + HAS, 'sink(2, c, False, False, 0)\nr = (True, False, True, False)\n', w, total=True)
    go(ctx, 'unregister, register again', P, two + 'unregister_component(c)\n' + ON + 'register_component(c, {k})\n' + HAS, 'sink(1, c, True, False, 1)\nr = (True, False, False, False)\n', w, total=True)
    go(ctx, 'unregister one, register again', P, two + 'unregister_component(c, {k})\nregister_component(c, {k})\n' + ON + 'unregister_component(c)\n' + HAS, 'sink(2, c, True, True, 2)\nr = (False, False, False, False)\n', w, total=True)
    go(ctx, 'unregister, listener looks', P, two + 'listen_component_unregistered_event(lambda x, t: sink(x in get_components_by_type(k), x in get_components_by_type(k2), k in t, k2 in t, len(t)))\nunregister_component(c)\n',
       'sink(False, False, True, True, 2)\n', w, total=True)


def refuse(ctx):
    """unregistering for a type the component is not registered for is refused and changes nothing"""
    w = where(ctx, 'ComponentManager', 'unregister')
    one = 'register_component(c, {k})\nregister_component(d, {k2})\n' + ON
    for ts in ('{k, k2}', '{k2, k}', '{k2}'):
        go(ctx, 'unregister refused', P, one + 'x = 0\ntry:\n    unregister_component(c, %s)\nexcept (AssertionError, KeyError, ValueError):\n    x = 1\n' % ts + HAS + 'r = (x, r)\n', 'r = (1, (True, False, False, True))\n', w)
    go(ctx, 'unregister refused, types kept', P, one + 'try:\n    unregister_component(c, {k, k2})\nexcept (AssertionError, KeyError, ValueError):\n    pass\nunregister_component(c)\n' + HAS,
       'sink(2, c, True, False, 1)\nr = (False, False, False, True)\n', w)
    go(ctx, 'unregister unknown', P, ON + 'x = 0\ntry:\n    unregister_component(c)\nexcept (AssertionError, KeyError, ValueError):\n    x = 1\nr = x\n', 'r = 1\n', w)


PRI = 'def pri(x):\n    return getattr(x, "priority", 50)\n'


def best(ctx):
    """asking for one component gives one of the highest priority, 50 if it has none, or nothing"""
    w = where(ctx, None, 'get_component')
    go(ctx, 'get_component of none', P, 'r = get_component(k)\n', 'r = None\n', w, total=True)
    go(ctx, 'get_component of none', P, 'register_component(c, {k})\nunregister_component(c)\nr = get_component(k)\n', 'r = None\n', w, total=True)
    go(ctx, 'get_component of one', P, 'register_component(c, {k})\nregister_component(d, {k2})\nr = get_component(k)\n', 'r = c\n', w, total=True)
    go(ctx, 'get_component of two', P, PRI + 'register_component(c, {k})\nregister_component(d, {k})\nx = get_component(k)\nr = (x is c or x is d, pri(x) >= pri(c), pri(x) >= pri(d))\n', PRI + 'r = (True, True, True)\n', w, total=True)
    go(ctx, 'get_component of three', 'c, d, e, k, k2', 'assert e is not None\nassert not (e == c)\nassert not (e == d)\n' + PRI + 'register_component(c, {k})\nregister_component(d, {k, k2})\nregister_component(e, {k})\nx = get_component(k)\nr = (x is c or x is d or x is e, pri(x) >= pri(c), pri(x) >= pri(d), pri(x) >= pri(e))\n',
       'r = (True, True, True, True)\n', w, total=True)


def existing(ctx):
    """announcing the existing components of a type announces each once under that type"""
    w = where(ctx, None, 'fire_existing_component_registered_events')
    go(ctx, 'existing', P, 'register_component(c, {k, k2})\nregister_component(d, {k2})\n' + ON + 'fire_existing_component_registered_events(k)\n', 'sink(1, c, True, False, 1)\n', w, total=True)
    go(ctx, 'existing none', P, 'register_component(d, {k2})\n' + ON + 'fire_existing_component_registered_events(k)\n', 'pass\n', w, total=True)


RULES = (register, unregister, refuse, best, existing)
