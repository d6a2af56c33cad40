"""C07: recorders and deliveries leave the patched code as they found it."""
import sys
import types

import torch
import torch.nn as nn

import mmrazor.models  # noqa
import mmrazor.models.task_modules.delivery.function_outputs_delivery as _fod
import mmrazor.models.task_modules.recorder.function_outputs_recorder as _for
from mmrazor.models.task_modules import (DistillDeliveryManager,
                                         RecorderManager)

ID = 'C07'
LEVEL = 'exploration'
QUICK, THOROUGH = 1500, 60000
MIN_STEPS = 5
RULE = ('A run draws several recorder and delivery managers over shared '
        'functions, methods, inherited methods, modules and parameters, and a '
        'program of nested enters, exits, calls and override switches with '
        'injected failures (in a wrapped call, in the body, while entering). '
        'After every step all buffers, results and patched attributes are '
        'compared with a small reference interpreter.')
STATE_MEASURE = 'digest of (stack of active managers, buffer lengths)'
COMPONENTS = dict(
    real='RecorderManager, DistillDeliveryManager and every recorder and '
    'delivery type',
    stub='the recorded functions, classes and network; failing imports')
ASSUMPTIONS = ['managers are entered and left in with-statement order, each '
               'at most once at a time']
MUST_REACH = ['enter-failed', 'shared-target', 'inherited', 'recorded',
              'overridden', 'call_fails', 'body_fails']

FUNCS = ['f0', 'f1']
METHODS = ['A.m0', 'A.m1', 'B.m0', 'B.m1']


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


SRC = '''
FAIL = [0]
CALLS = [0]
EXC = [None]
LIST = []
notfunc = 3

def _tick():
    CALLS[0] += 1
    if FAIL[0] and CALLS[0] >= FAIL[0]:
        FAIL[0] = 0
        raise EXC[0]('injected')

def f0(a, b=1):
    _tick()
    return ('f0', a, b)

def f1(a, b=2):
    _tick()
    return ('f1', f0(a + 10, b=b), b)

class A:
    def m0(self, a, b=3):
        _tick()
        return ('A.m0', a, b)

    def m1(self, a, b=4):
        _tick()
        return ('A.m1', self.m0(a + 100), f0(a), b)

class B(A):
    def m1(self, a, b=5):
        _tick()
        return ('B.m1', super().m1(a, b))
'''


class Net(nn.Module):

    def __init__(self):
        super().__init__()
        self.l1 = nn.Linear(2, 2)
        self.l2 = nn.Linear(2, 2)

    def forward(self, x):
        return self.l2(self.l1(self.l1(x)))


def gen(rng, i, tier):
    mans = []
    for _ in range(rng.randint(1, 4)):
        items = []
        deliv = rng.chance(0.35)
        for _ in range(rng.randint(0 if deliv else 1, 4)):
            if deliv:
                if rng.chance(0.5):
                    items.append(['FunctionOutputs', rng.choice(FUNCS),
                                  rng.randint(1, 3)])
                else:
                    items.append(['MethodOutputs', rng.choice(METHODS),
                                  rng.randint(1, 3)])
            else:
                k = rng.choice(['FunctionInputs', 'FunctionOutputs',
                                'FunctionOutputs', 'MethodInputs',
                                'MethodOutputs', 'MethodOutputs',
                                'ModuleInputs', 'ModuleOutputs', 'Parameter'])
                if k.startswith('Func'):
                    t = rng.choice(FUNCS)
                elif k.startswith('Meth'):
                    t = rng.choice(METHODS)
                elif k.startswith('Mod'):
                    t = rng.choice(['l1', 'l2'])
                else:
                    t = rng.choice(['l1.weight', 'l2.bias'])
                items.append([k, t, 0])
        if rng.chance(0.12):
            items.insert(rng.randint(0, len(items)),
                         ['FunctionOutputs', rng.choice(
                             ['missing', 'notfunc']), 1])
        mans.append(dict(deliv=deliv, items=items))
    ops = []
    for _ in range(rng.randint(4, 26)):
        r = rng.random()
        if r < 0.3:
            ops.append(dict(op='enter', m=rng.randint(0, 3)))
        elif r < 0.42:
            ops.append(dict(op='exit'))
        elif r < 0.82:
            ops.append(dict(op='call', t=rng.choice(
                FUNCS + METHODS + ['net']), a=rng.randint(0, 5),
                kw=rng.randint(0, 2)))
        elif r < 0.88:
            ops.append(dict(op='override', m=rng.randint(0, 3),
                            v=rng.chance(0.5)))
        elif r < 0.95:
            ops.append(dict(op='fail', n=rng.randint(1, 3),
                            hard=rng.chance(0.3), t=rng.choice(
                                FUNCS + METHODS), a=rng.randint(0, 5),
                            up=rng.randint(0, 3)))
        elif r < 0.98:
            ops.append(dict(op='body', up=rng.randint(1, 3),
                            hard=rng.chance(0.3)))
        else:
            ops.append(dict(op='badimport', m=rng.randint(0, 3),
                            n=rng.randint(1, 3)))
    return dict(mans=mans, ops=ops)


# ---------------------------------------------------------------- reference
class Model:
    """The same program, interpreted: attribute slots hold closures."""

    def __init__(self, mans):
        self.n, self.fail, self.exc = 0, 0, None
        self.slot = {}
        m = self

        def tick():
            m.n += 1
            if m.fail and m.n >= m.fail:
                m.fail = 0
                raise m.exc('injected')

        def f0(a, b=1):
            tick()
            return ('f0', a, b)

        def f1(a, b=2):
            tick()
            return ('f1', m.get('f0')(a + 10, b=b), b)

        def am0(s, a, b=3):
            tick()
            return ('A.m0', a, b)

        def am1(s, a, b=4):
            tick()
            return ('A.m1', m.meth(s, 'm0')(s, a + 100), m.get('f0')(a), b)

        def bm1(s, a, b=5):
            tick()
            return ('B.m1', m.slot['A.m1'](s, a, b))

        self.slot = {'f0': f0, 'f1': f1, 'A.m0': am0, 'A.m1': am1,
                     'B.m1': bm1}
        self.buf = {}
        self.queue = {}
        self.over = {}
        self.active = {}

    def get(self, t):
        return self.slot[t]

    def meth(self, cls, name):
        if cls == 'B' and 'B.' + name in self.slot:
            return self.slot['B.' + name]
        return self.slot['A.' + name]

    def resolve(self, t):
        if '.' in t:
            return self.meth(*t.split('.'))
        return self.slot.get(t)

    def wrap(self, key, kind, t, size, deliv):
        inner = self.resolve(t)
        method = '.' in t
        if deliv:
            def w(*a, **k):
                q = self.queue[key]
                if self.over[key[0]]:
                    assert q
                    return q.pop(0)
                assert len(q) < size
                out = inner(*a, **k)
                q.append(out)
                return out
        else:
            buf = self.buf[key]

            def w(*a, **k):
                out = inner(*a, **k)
                if kind.endswith('Inputs'):
                    buf.append(list(a[1:] if method else a) +
                               [k[x] for x in ('a', 'b') if x in k])
                else:
                    buf.append(out)
                return out
        old = self.slot.get(t)
        self.slot[t] = w
        return old

    def enter(self, mi, man, bad_at):
        """Returns the slots to restore, or None when entering fails."""
        undo = []
        for j, (kind, t, size) in enumerate(man['items']):
            key = (mi, j)
            if not man['deliv']:
                if kind == 'Parameter':
                    continue
                self.buf[key] = []
            if (kind.startswith('Func')
                    and (t in ('missing', 'notfunc') or bad_at == 1)):
                self.exit(undo)
                return None
            if kind.startswith('Func'):
                bad_at = bad_at - 1 if bad_at else bad_at
            if kind.startswith(('Func', 'Meth')):
                undo.append((t, self.wrap(key, kind, t, size, man['deliv'])))
            else:
                self.active[key] = True
                undo.append((None, key))
        return undo

    def exit(self, undo):
        for t, old in reversed(undo):
            if t is None:
                del self.active[old]
            elif old is None:
                del self.slot[t]
            else:
                self.slot[t] = old


def snapshot(mod, net):
    s = {f: vars(mod)[f] for f in FUNCS}
    for c in ('A', 'B'):
        for n in ('m0', 'm1'):
            s[f'{c}.{n}'] = vars(getattr(mod, c)).get(n)
    s['vars'] = sorted(vars(mod)), sorted(vars(mod.A)), sorted(vars(mod.B))
    for n, m in net.named_modules():
        s['hooks:' + n] = (tuple(m._forward_hooks.values()),
                           tuple(m._forward_pre_hooks.values()), m.training)
    return s


def run(plan, sim):
    mod = types.ModuleType('simtoy')
    exec(compile(SRC, 'simtoy', 'exec'), mod.__dict__)
    sys.modules['simtoy'] = mod
    torch.manual_seed(1)
    net = Net()
    x = torch.ones(1, 2)
    l1o = net.l1(x), net.l1(net.l1(x))
    expect_net = net(x)
    net_in = dict(l1=[x, l1o[0]], l2=[l1o[1]])
    net_out = dict(l1=[l1o[0], l1o[1]], l2=[expect_net])

    model = Model(plan['mans'])
    real = []
    seen = {}
    for mi, man in enumerate(plan['mans']):
        d = {}
        for j, (kind, t, size) in enumerate(man['items']):
            src = t if kind[0] == 'P' or kind.startswith('Mod') \
                else 'simtoy.' + t
            if man['deliv']:
                key = 'func_path' if kind[0] == 'F' else 'method_path'
                d[f'd{j}'] = {'type': kind, key: src, 'max_keep_data': size}
            else:
                d[f'd{j}'] = dict(type=kind, source=src)
            seen[t] = seen.get(t, 0) + 1
        if man['deliv']:
            m = DistillDeliveryManager(d)
            model.over[mi] = False
            for j in range(len(man['items'])):
                model.queue[(mi, j)] = []
        else:
            m = RecorderManager(d)
            m.initialize(net)
        real.append(m)
    if any(v > 1 for v in seen.values()):
        sim.probe('shared-target')
    if seen.get('B.m0'):
        sim.probe('inherited')

    pristine = snapshot(mod, net)
    objs = dict(A=mod.A(), B=mod.B())

    def compare(where):
        for mi, man in enumerate(plan['mans']):
            for j, (kind, t, size) in enumerate(man['items']):
                if man['deliv']:
                    got = list(real[mi].deliveries[f'd{j}'].data_queue)
                    want = model.queue[(mi, j)]
                elif kind == 'Parameter':
                    got = list(real[mi].get_recorder(f'd{j}').data_buffer)
                    p = dict(net.named_parameters())[t]
                    sim.check(len(got) == 1 and got[0] is p,
                              'parameter-record', where)
                    continue
                else:
                    got = list(real[mi].get_recorder(f'd{j}').data_buffer)
                    want = model.buf.get((mi, j), [])
                    if len(got) == len(want) and kind.startswith('Mod'):
                        ok = all(torch.equal(
                            a[0] if isinstance(a, tuple) else a, b)
                            for a, b in zip(got, want))
                        sim.check(ok, 'wrong-record', where)
                        continue
                sim.check(got == want, 'wrong-record', lambda:
                          f'{where}: {kind} of {t} (manager {mi} item {j}) '
                          f'holds {got}, calls made give {want}')
                if want:
                    sim.probe('recorded')

    def same(snap, where):
        now = snapshot(mod, net)
        for k in snap:
            sim.check(now[k] == snap[k], 'not-restored', lambda:
                      f'{where}: {k} is {now[k]!r}, was {snap[k]!r}')

    def call(t, a, kw):
        args, kws = ((a, ), {}) if kw == 0 else (
            ((a, ), dict(b=a + 7)) if kw == 1 else ((), dict(b=a, a=a + 1)))
        if '.' in t:
            c, n = t.split('.')
            r = lambda: getattr(objs[c], n)(*args, **kws)   # noqa
            e = lambda: model.meth(c, n)(c, *args, **kws)   # noqa
        else:
            r = lambda: getattr(mod, t)(*args, **kws)       # noqa
            e = lambda: model.get(t)(*args, **kws)          # noqa
        out = []
        for f in (e, r):
            try:
                out.append(('ok', f()))
            except (Boom, Hard, AssertionError) as x:
                out.append((type(x).__name__, None, x))
        sim.check(out[0][:2] == out[1][:2], 'wrong-result', lambda:
                  f'{t}({args}, {kws}): {out[1][:2]}, unwrapped code gives '
                  f'{out[0][:2]}')
        sim.check(model.n == mod.CALLS[0], 'wrong-calls', lambda:
                  f'{t}: {mod.CALLS[0]} executions, expected {model.n}')
        sim.log('call', t, a, kw, out[0][0], repr(out[0][1]))
        return out[1]

    def call_net():
        y = net(x)
        sim.check(torch.equal(y, expect_net), 'wrong-result', 'network')
        for (mi, j) in sorted(model.active):
            kind, t, _ = plan['mans'][mi]['items'][j]
            model.buf[(mi, j)] += \
                (net_in if kind == 'ModuleInputs' else net_out)[t]
        sim.log('net')

    active = []

    def level(ops):
        """Run ops inside the innermost context; returns the remaining ops.
        An exception with ``up`` levels left is re-raised by each level."""
        while ops:
            o, ops = ops[0], ops[1:]
            k = o['op']
            if k == 'exit':
                if active:
                    return ops
            elif k == 'call':
                if o['t'] == 'net':
                    call_net()
                else:
                    call(o['t'], o['a'], o['kw'])
                if any(model.over.get(m) for m in active):
                    sim.probe('overridden')
            elif k == 'override':
                mi = o['m'] % len(real)
                if plan['mans'][mi]['deliv']:
                    real[mi].override_data = o['v']
                    model.over[mi] = o['v']
            elif k == 'fail':
                mod.CALLS[0] = model.n = 0
                mod.FAIL[0] = model.fail = o['n']
                mod.EXC[0] = model.exc = Hard if o['hard'] else Boom
                sim.arm('call_fails')
                r = call(o['t'], o['a'], 0)
                mod.FAIL[0] = model.fail = 0
                if r[0] in ('Boom', 'Hard'):
                    sim.fired('call_fails')
                compare('after failed call')
                if r[0] in ('Boom', 'Hard') and o['up'] and active:
                    r[2].up, r[2].rest = o['up'], ops
                    raise r[2]
            elif k == 'body' and active:
                sim.arm('body_fails')
                sim.fired('body_fails')
                e = (Hard if o['hard'] else Boom)('body')
                e.up, e.rest = o['up'], ops
                raise e
            elif k in ('enter', 'badimport'):
                mi = o['m'] % len(real)
                if mi not in active:
                    ops = inside(mi, o.get('n', 0), ops)
            compare(f'after {k}')
        return []

    def inside(mi, bad_at, ops):
        man = plan['mans'][mi]
        snap = snapshot(mod, net)
        undo = model.enter(mi, man, bad_at)
        count = [0]

        def failing(s, *a, **k):
            count[0] += 1
            if count[0] == bad_at:
                sim.fired('import_fails')
                raise ImportError('injected')
            return orig(s, *a, **k)

        orig = _for.import_modules_from_strings
        entered = False
        rest = ops
        try:
            if bad_at:
                sim.arm('import_fails')
                _for.import_modules_from_strings = failing
                _fod.import_modules_from_strings = failing
            with real[mi]:
                _for.import_modules_from_strings = orig
                _fod.import_modules_from_strings = orig
                entered = True
                sim.check(undo is not None, 'entered-broken',
                          f'manager {mi} entered in spite of a bad source')
                active.append(mi)
                sim.log('enter', mi)
                sim.state(list(active), [len(b) for b in model.buf.values()])
                rest = level(ops)
            active.remove(mi)
            model.exit(undo)
            sim.log('exit', mi)
        except (Boom, Hard) as e:
            active.remove(mi)
            model.exit(undo)
            sim.log('exit-by', type(e).__name__, mi)
            same(snap, f'after an exception left manager {mi}')
            e.up -= 1
            if e.up > 0 and active:
                raise
            rest = e.rest
        except (ImportError, AssertionError, TypeError):
            _for.import_modules_from_strings = orig
            _fod.import_modules_from_strings = orig
            if entered:
                raise
            sim.check(undo is None, 'enter-failed-unexpectedly',
                      f'manager {mi}')
            sim.probe('enter-failed')
            sim.log('enter-failed', mi)
        same(snap, f'after leaving manager {mi}')
        return rest

    ops = list(plan['ops'])
    while ops:
        ops = level(ops)
    same(pristine, 'at the end')
    for t in FUNCS + METHODS:
        call(t, 1, 1)
