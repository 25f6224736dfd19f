"""P05: a save either completes or leaves the previously saved object loadable; whatever is loaded is complete."""
import os
import pickle
from pathlib import Path

import numpy as np
import torch

from mushroom_rl.core import Core, Agent, Serializable, Dataset

from dst import fp, world, zoo
from dst.engine import SimFault, SimInterrupt
from dst.runner import Check
from dst.simdisk import SimDisk, SimCrash, plan_fault, _open


class Bomb:
    """An attribute that cannot be serialised: the pickler meets an error (or Ctrl-C) in the middle of the archive."""
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc

    def __deepcopy__(self, memo):
        return self


BOMBS = [lambda: SimFault('cannot be serialised'), SimInterrupt, lambda: pickle.PicklingError('no pickle'),
         lambda: TypeError('cannot pickle this object'), lambda: AttributeError('cannot pickle local object'),
         lambda: MemoryError(), lambda: ValueError('embedded'), lambda: RecursionError('too deep'),
         lambda: NotImplementedError('method'), lambda: KeyError('config')]


class Node(Serializable):
    """A user class with an attribute for every serialisation method, nested and in lists."""
    def __init__(self, r, depth):
        self.ver = -1
        self.big = r.random() < .2
        self.child = Node(r, depth - 1) if depth > 0 and r.random() < .8 else None
        self.kids = [Node(r, depth - 1) for _ in range(r.randrange(3))] if depth > 0 else None
        self.set(r, 0)
        self._add_save_attr(ver='primitive', arr='numpy', ten='torch', js='json', obj='pickle', child='mushroom',
                            kids='mushroom', tmp='none', full_arr='numpy!', full_obj='pickle!', empty='pickle',
                            net='torch')
        self._add_save_attr(extra='primitive!')

    def set(self, r, ver):
        n = 700 if self.big else r.randrange(1, 6)
        self.ver = ver
        self.arr = np.array([r.random() for _ in range(n)])
        self.ten = torch.tensor([r.random() for _ in range(r.randrange(1, 4))])
        self.js = dict(a=[r.randrange(9)], v=ver)
        self.obj = {'x': (r.randrange(9), 'y' * r.randrange(50)), 'ver': ver}
        self.tmp = ver
        self.full_arr = np.array([ver, r.random()])
        self.full_obj = [ver, r.random()]
        self.extra = r.randrange(100)
        self.empty = None
        self.net = torch.nn.Linear(1, 1) if r.random() < .3 else None
        for c in self.nodes()[1:]:
            c.set(r, ver)

    def nodes(self):
        out = [self]
        for c in ([self.child] if self.child is not None else []) + (self.kids or []):
            out += c.nodes()
        return out

    def expect(self, full):
        """What a loaded copy must look like, from first principles."""
        d = dict(ver=self.ver, arr=self.arr.copy(), ten=self.ten.clone(), js=dict(a=list(self.js['a']), v=self.ver),
                 obj=dict(self.obj), tmp=None, full_arr=self.full_arr.copy() if full else None,
                 full_obj=list(self.full_obj) if full else None, extra=self.extra if full else None, empty=None,
                 child=None if self.child is None else self.child.expect(full),
                 kids=None if self.kids is None else [k.expect(full) for k in self.kids], big=None,
                 net=None if self.net is None else [w.detach().clone() for w in self.net.parameters()])
        return d


def as_dict(o):
    if not isinstance(o, Node):
        return o
    d = {k: getattr(o, k, None) for k in ('ver', 'arr', 'ten', 'js', 'obj', 'tmp', 'full_arr', 'full_obj', 'extra',
                                          'empty')}
    d['child'] = None if o.child is None else as_dict(o.child)
    d['kids'] = None if o.kids is None else [as_dict(k) for k in o.kids]
    d['big'] = None
    d['net'] = None if o.net is None else [w.detach().clone() for w in o.net.parameters()]
    return d


def load_fixed(path):
    """Two loads of one file may differ in memory that was never written; here it has the same content every time."""
    with world.poison(7):
        return Serializable.load(path)


def load(ctx, path, describe):
    """describe(loaded object), or the string 'error' when load raises."""
    try:
        o = load_fixed(path)
    except Exception as e:
        ctx.ev('load-raised', type(e).__name__)
        return 'error'
    ctx.require(o is not None, 'load-none', 'load returned None instead of an object or an error')
    return describe(o)


def attempt(ctx, disk, save, bomb=None):
    """Runs one save; returns 'ok', 'failed' or 'crashed'."""
    try:
        save()
    except (SimCrash, Exception, KeyboardInterrupt) as e:
        if not (disk.fired or bomb):
            raise
        e.__traceback__ = None
        if disk.dead:
            disk.reboot()
            return 'crashed'
        disk.disarm()
        return 'failed'
    ctx.require(not disk.dead, 'harness', 'a dead process went on')
    disk.disarm()
    return 'ok'


def settle(ctx, path, outcome, prev, new, describe, what):
    """The saved object after an attempt: exactly the new version after a success, else the previous or the new one."""
    got = load(ctx, path, describe)
    allowed = {'ok': [new]}.get(outcome, [prev, new])
    for a in allowed:
        if (a is None and got == 'error') or (a is not None and got != 'error' and not fp.diff(a, got)):
            ctx.probe(f'{outcome}-' + ('new' if a is new else 'previous'))
            return a
    ref = new if outcome == 'ok' or prev is None else prev
    det = 'nothing can be loaded' if got == 'error' else '; '.join(fp.diff(ref or {}, got)[:4])
    ctx.fail('save-lost' if outcome == 'ok' else 'torn-save', f'{what}, save {outcome}: {det}')


def bystanders(ctx, disk, folder):
    """Unrelated files that a save must not touch."""
    out = {}
    for name in ('agent.zip', 'notes.txt', 'obj', 'other.msh'):
        if ctx.flip('bystander', 0.3):
            data = name.encode() * 3
            with _open(os.path.join(folder, name), 'wb') as f:
                f.write(data)
            out[os.path.join(folder, name)] = data
    return out


def check_bystanders(ctx, files, path):
    for f, data in files.items():
        if f != str(path):
            ok = os.path.exists(f) and _open(f, 'rb').read() == data
            ctx.require(ok, 'foreign-file', f'saving to {os.path.basename(path)} changed {os.path.basename(f)}')


def toy(ctx):
    r = ctx.sub('content')
    disk = SimDisk(ctx)
    with disk.installed():
        node = Node(r, ctx.int('depth', 0, 2))
        folder = os.path.join(disk.root, *['sub'] * ctx.pick('nest', 3))
        path = os.path.join(folder, ctx.choice('name', ['obj.msh', 'agent', 'a.b.c']))
        files = {}
        if ctx.flip('folder-exists', 0.6):
            os.makedirs(folder, exist_ok=True)
            files = bystanders(ctx, disk, folder)
        arg = Path(path) if ctx.flip('as-path', 0.5) else path
        prev = None
        n_ops = 40
        for v in range(1, ctx.int('saves', 1, 5) + 1):
            node.set(r, v)
            full = ctx.flip('full', 0.5)
            new = fp.describe(node.expect(full))
            disk.fired = False
            kind = plan_fault(ctx, disk, n_ops)
            bomb, keep = None, None
            if kind is None and ctx.flip('bomb', 0.25):
                # an attribute somewhere in the graph fails to serialise
                where = ctx.choice('bomb-node', node.nodes())
                bomb = ctx.choice('bomb-error', BOMBS)()
                att = ctx.choice('bomb-attr', ['obj', 'empty', 'js-list'])
                if att == 'js-list':
                    att, val = 'obj', [1, 'x' * 100, Bomb(bomb)]
                else:
                    val = Bomb(bomb)
                keep = (where, att, getattr(where, att))
                setattr(where, att, val)
                ctx.fault('serialisation-error')
            start = disk.n
            out = attempt(ctx, disk, lambda: node.save(arg, full_save=full), bomb)
            if bomb is not None:
                ctx.require(out == 'failed', 'lost-error', 'a save whose data cannot be serialised reported success')
                setattr(*keep)
            if out == 'ok':
                n_ops = disk.n - start
                ctx.state('toy', min(n_ops, 60), kind)
            ctx.ev('save', v, full, kind, out)
            prev = settle(ctx, path, out, prev, new, lambda o: fp.describe(as_dict(o)), f'version {v}')
            check_bystanders(ctx, files, path)
        # once the faults are gone a save succeeds, whatever the earlier attempts left behind
        disk.short = False
        node.set(r, 99)
        node.save(arg, full_save=True)
        settle(ctx, path, 'ok', prev, fp.describe(node.expect(True)), lambda o: fp.describe(as_dict(o)), 'final save')
        check_bystanders(ctx, files, path)


def agents(ctx):
    """Real agents and datasets: the reference for a version is what a fault-free save of the same object loads as."""
    name = ctx.choice('agent', zoo.NAMES)
    z = zoo.build(name, ctx.pick('options', 1 << 16))
    disk = SimDisk(ctx)
    with disk.installed():
        core = Core(z.agent, z.env)
        path, side = os.path.join(disk.root, 'agent.msh'), os.path.join(disk.root, 'side', 'ref.msh')
        prev, n_ops = None, 60
        for v in range(ctx.int('saves', 1, 3)):
            if v == 0 or name != 'BoostedFQI':
                n = z.fit.get('n_episodes_per_fit')
                if not zoo.survives(core.learn, quiet=True, **(dict(n_episodes=n) if n else
                                                               dict(n_steps=ctx.int('steps', 1, 18))), **z.fit):
                    return
            if ctx.flip('dataset', 0.2):
                obj = zoo.survives(core.evaluate, n_steps=ctx.int('eval', 1, 8), quiet=True)
                if not obj:
                    return
                obj = obj[0]
                kw = {}
            else:
                obj, kw = z.agent, dict(full_save=ctx.flip('full', 0.5))
            obj.save(side, **kw)
            new = fp.describe(load_fixed(side))
            disk.fired = False
            kind = plan_fault(ctx, disk, n_ops)
            start = disk.n
            out = attempt(ctx, disk, lambda: obj.save(path, **kw))
            if out == 'ok':
                n_ops = disk.n - start
                ctx.state(name, min(n_ops, 300), kind)
            ctx.ev('save', name, kind, out)
            prev = settle(ctx, path, out, prev, new, fp.describe, f'{name} save {v}')


def truncated(ctx):
    """A file that was cut short (copied or transferred incompletely) is refused, never loaded in part."""
    r = ctx.sub('content')
    disk = SimDisk(ctx)
    with disk.installed():
        if ctx.flip('agent', 0.3):
            obj = zoo.build(ctx.choice('agent', zoo.NAMES), ctx.pick('options', 1 << 16)).agent
        else:
            obj = Node(r, ctx.int('depth', 0, 2))
        path = os.path.join(disk.root, 'obj.msh')
        obj.save(path, full_save=ctx.flip('full', 0.5))
        with _open(path, 'rb') as f:
            data = f.read()
        for _ in range(ctx.int('cuts', 1, 4)):
            cut = ctx.pick('cut', len(data))
            with _open(path, 'wb') as f:
                f.write(data[:cut])
            ctx.fault('truncated-file')
            got = load(ctx, path, lambda o: o)
            ctx.require(got == 'error', 'partial-load', f'{cut} of {len(data)} bytes were loaded as {type(got).__name__}')
        os.unlink(path)
        ctx.require(load(ctx, path, lambda o: o) == 'error', 'load-missing', 'a missing file was loaded')
        ctx.state('cut', type(obj).__name__)


CHECK = Check(
    'P05', dict(toy=toy, agents=agents, truncated=truncated), quick=dict(toy=12000, agents=2500, truncated=1500),
    thorough=dict(toy=150000, agents=25000, truncated=20000),
    rule='One case = one object saved 1-5 times to the same path with a crash (torn data), ENOSPC, EIO, interrupt, short '
         'writes or a serialisation error at a chosen mutating disk operation of each save, then loaded. '
         'Distinct = different event-log digest.',
    real=['Serializable.save/load and every save method', 'all agents, policies, approximators, datasets of the zoo',
          'zipfile, pickle, numpy and torch serialisers'],
    stub=['file system calls below the scratch directory (simulated disk)', 'environment dynamics are the real ones'],
    assumptions=['a completed write survives the death of the process (no power loss, no lost fsync)',
                 'rename within one directory is atomic', 'one writer per path'],
    sim_unit='mutating disk operations')
