"""programs in which values are shared between variables, lists, closures and fields while each of them is modified in place"""
import random
import gen, gen_vm
from gen_vm import Sc
from bq import *
LEN = [1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 40]
GJOIN = M2('cond', M2('atop', M2('before', K([0, 150]), P('lt')), M2('over', P('add'), P('ne'))), {'k': 'fl', 'fs': [P('join'), P('ltack')]})
class A(gen_vm.G):
    grow = 4; nest = 0
    def gp(s, t):
        """primitive, with those that grow values limited"""
        if t == 'join': return GJOIN
        if t in ('pair', 'couple'):
            s.grow -= 1
            if s.grow < 0 or s.nest: return P('rtack')
        return P(t)
    def __init__(s, rng):
        super().__init__(rng); s.g = gen.G(0); s.g.r = rng; s.n = rng.choice(LEN); s.mixk = rng.random()
        s.kinds = rng.choice([['bit', 'i8', 'i8e', 'small'], ['i8', 'i16e', 'i32e', 'frac'], ['small', 'frac', 'big'], ['abc', 'c8', 'c16'], ['small', 'abc', 'nest', 'i8'], ['nest', 'small'], ['bit', 'bit', 'small']])
    def val(s, n=None):
        n = s.n if n is None else n; k = s.r.choice(s.kinds)
        if k == 'nest': return s.g.nested([min(n, 9)], 1)
        if n > 3 and n % 2 == 0 and s.r.random() < .2: return s.g.flat([2, n//2], k)
        return s.g.flat([n], k)
    def scalar(s):
        k = s.r.choice(s.kinds)
        return s.g.num(s.r.choice(['i8', 'small', 'i16e', 'frac'])) if k not in ('abc', 'c8', 'c16') else ch(s.g.chv(k))
    def sel(s):
        """a selecting function"""
        q = s.r.random(); n = s.n; ix = lambda: s.r.randrange(-n, n)
        if q < .3: return M2('before', K([0, ix()]), P('pick'))
        if q < .55: return M2('before', K(lst([[0, i % n] for i in s.r.sample(range(n), s.r.randint(1, min(n, 4)))])), P('select'))
        if q < .7: return M2('before', K([0, s.r.randint(0, n)]), P('take'))
        if q < .85: return M2('before', K([0, s.r.randint(-n, n)]), P('drop'))
        return P(s.r.choice(['rev', 'shape', 'rtack', 'transp']))
    def mon(s, d=1):
        q = s.r.random(); r = s.r
        if q < .3: return P(r.choice(['sub', 'not', 'floor', 'ceil', 'rev', 'rev', 'shape', 'transp', 'rtack', 'gradeU', 'gradeD', 'and', 'or', 'memberOf', 'indexOf', 'count', 'pair', 'lt'])) if r.random() < .9 else s.gp('pair')
        if q < .5: return M2(r.choice(['before', 'before']), K(s.scalar() if r.random() < .6 else s.val()), s.gp(r.choice(['add', 'sub', 'mul', 'floor', 'ceil', 'eq', 'lt', 'join', 'sha', 'shb', 'ltack'])))
        if q < .6: return M2('after', s.gp(r.choice(['add', 'sub', 'mul', 'floor', 'ceil', 'join', 'gt', 'ltack', 'rtack'])), K(s.scalar() if r.random() < .6 else s.val()))
        if q < .66: return M2('before', K([0, r.randint(-3, 3)]), P('rev'))
        if q < .7: return M2('before', K([0, r.randint(-s.n, s.n)]), P(r.choice(['drop', 'take'])))
        if q < .74: return M1('scan', P(r.choice(['add', 'ceil', 'floor', 'ltack'])))
        if q < .8: return M1('each', s.gp(r.choice(['sub', 'rtack', 'pair', 'rev'])))
        if q < .84: return M1('cells', P(r.choice(['rev', 'sub', 'rtack'])))
        if d == 0: return P('sub')
        f = s.mon(0) if r.random() < .6 else M1('const', K(s.scalar() if r.random() < .7 else s.val()))
        return M2('under', f, s.sel())
    def dy(s):
        r = s.r; q = r.random()
        if q < .75: return s.gp(r.choice(['add', 'add', 'sub', 'mul', 'floor', 'ceil', 'eq', 'ne', 'lt', 'ge', 'join', 'join', 'ltack', 'rtack', 'sha', 'sha', 'shb', 'shb', 'match', 'pair', 'couple', 'gt', 'le']))
        if q < .85: return M1('swap', s.gp(r.choice(['add', 'sub', 'join', 'ltack', 'rtack', 'pair'])))
        if q < .92: return M1('each', s.gp(r.choice(['add', 'sub', 'pair', 'ltack'])))
        return M2('over', s.gp(r.choice(['add', 'join', 'sub'])), P(r.choice(['sub', 'rev', 'rtack'])))
    def F(s, t):
        """push the function, usually guarded"""
        if s.r.random() < .85: t = M2('catch', t, P(s.r.choice(['rtack', 'rtack', 'ltack'])))
        return s.obj({'k': 't', 't': t})
    def pick(s, sc):
        vs = s.find(sc, lambda v: v.t == 'v' and v.defd)
        return s.r.choice(vs) if vs else None
    def rd(s, sc):
        p = s.pick(sc)
        if p is None: s.emit(sc, 'PUSH', s.c(s.val())); return
        d, v = p; s.use(sc, d, v)
    def expr(s, sc, d=2):
        q = s.r.random()
        if d == 0 or q < .35: return s.rd(sc)
        if q < .5: s.emit(sc, 'PUSH', s.c(s.val() if s.r.random() < .8 else s.scalar())); return
        if q < .7: s.expr(sc, d-1); s.emit(sc, 'PUSH', s.F(s.mon())); s.emit(sc, 'FN1C'); return
        if q < .86: s.expr(sc, d-1); s.emit(sc, 'PUSH', s.F(s.dy())); s.expr(sc, d-1); s.emit(sc, 'FN2C'); return
        if q < .93 and s.grow > 0 and not s.nest: s.grow -= 1; k = s.r.randint(1, 3); [s.expr(sc, d-1) for _ in range(k)]; s.emit(sc, 'LSTO', k); return
        s.expr(sc, d-1); s.emit(sc, 'PUSH', s.recf()); s.emit(sc, 'FN1C'); s.emit(sc, 'PUSH', s.p('pick')); s.emit(sc, 'FN1C')
    def target(s, sc, new=.4):
        if s.r.random() < new or s.pick(sc) is None:
            v = s.newvar(sc, 'v'); v.defd = False; return 0, v, True
        d, v = s.pick(sc)
        if d: v.captured = True
        return d, v, False
    def step(s, sc, d=2):
        s.nest = sc.par is not None
        try: s.step_(sc, d)
        finally: s.nest = sc.par is not None
    def step_(s, sc, d=2):
        q = s.r.random(); r = s.r
        if q < .26:
            s.expr(sc); d_, v, new = s.target(sc); s.emit(sc, 'VARM', d_, v.slot); s.emit(sc, 'SETN' if new else 'SETU'); v.defd = True
        elif q < .46 and s.pick(sc):
            s.expr(sc, 1); s.emit(sc, 'PUSH', s.F(s.dy())); d_, v = s.pick(sc); s.emit(sc, 'VARM', d_, v.slot); s.emit(sc, 'SETM')
            if d_: v.captured = True
        elif q < .64 and s.pick(sc):
            s.emit(sc, 'PUSH', s.F(s.mon())); d_, v = s.pick(sc); s.emit(sc, 'VARM', d_, v.slot); s.emit(sc, 'SETC')
            if d_: v.captured = True
        elif q < .72 and len({v.slot for v in sc.vars if v.defd and v.t == 'v'}) > 1: # several at once
            vs = [v for v in sc.vars if v.defd and v.t == 'v']; k = r.randint(2, min(3, len(vs))); tg = r.sample(vs, k)
            if r.random() < .5:
                for v in r.sample(tg, k): s.emit(sc, 'VARO', 0, v.slot)
                s.emit(sc, 'LSTO', k)
                for v in tg: s.emit(sc, 'VARM', 0, v.slot)
                s.emit(sc, 'LSTM', k); s.emit(sc, 'SETU')
            else:
                if r.random() < .6: s.emit(sc, 'PUSH', s.c([0, r.randint(-1, 3)])) # each with the same right argument
                else: [s.emit(sc, 'VARO', 0, v.slot) for v in r.sample(tg, k)]; s.emit(sc, 'LSTO', k)
                s.emit(sc, 'PUSH', s.obj({'k': 't', 't': M1('each', M2('catch', s.gp(r.choice(['add', 'sub', 'join', 'ltack', 'rtack'])), P('ltack')))}))
                for v in tg: s.emit(sc, 'VARM', 0, v.slot)
                s.emit(sc, 'LSTM', k); s.emit(sc, 'SETM')
        elif q < .82 and d > 0: # a function: modifies its argument and perhaps outer variables
            b = Sc(sc, 3); b.given_vars = [gen_vm.Var('', 'v', 1)]
            for _ in range(r.choice([1, 1, 2, 3])): s.step(b, d-1)
            s.rd(b); bi = s.finish(b)
            if r.random() < .4: # over the elements of a list
                s.rd(sc); s.emit(sc, 'PUSH', s.pm(1, 'each')); s.emit(sc, 'DFND', s.block(0, False, [[bi], [bi], [], [], []])); s.emit(sc, 'MD1C'); s.emit(sc, 'FN1C')
            elif r.random() < .6:
                s.rd(sc); s.emit(sc, 'DFND', s.block(0, False, [[bi], [bi], [], [], []])); s.emit(sc, 'FN1C')
            else:
                s.emit(sc, 'DFND', s.block(0, False, [[bi], [bi], [], [], []])); v = s.newvar(sc, 'k'); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETN'); s.emit(sc, 'POPS'); s.rd(sc); s.use(sc, 0, v); s.emit(sc, 'FN1C')
            v = s.newvar(sc, 'v'); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETN')
        elif q < .87 and d > 0: # a namespace holding values
            b = Sc(sc, 0)
            for _ in range(r.choice([1, 2])): s.step(b, d-1)
            ex = [v for v in b.vars if v.defd and v.t == 'v']
            v = s.newvar(b, 'v'); v.defd = False; s.rd(b) if r.random() < .8 else s.expr(b); v.defd = True; s.emit(b, 'VARM', 0, v.slot); s.emit(b, 'SETN'); s.emit(b, 'POPS'); ex.append(v)
            bi = s.finish(b, 'RETD', ex); s.emit(sc, 'DFND', s.block(0, True, [[bi], [], [], [], []]))
            g = s.newvar(sc, ('g', tuple((e.name, 'v') for e in ex))); s.emit(sc, 'VARM', 0, g.slot); s.emit(sc, 'SETN')
        elif q < .95 and s.find(sc, lambda v: isinstance(v.t, tuple) and v.defd):
            d_, g = r.choice(s.find(sc, lambda v: isinstance(v.t, tuple) and v.defd)); s.use(sc, d_, g); s.emit(sc, 'FLDO', r.choice(g.t[1])[0])
            v = s.newvar(sc, 'v'); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETN')
        elif s.find(sc, lambda v: v.t == 'k' and v.defd):
            d_, v = r.choice(s.find(sc, lambda v: v.t == 'k' and v.defd)); s.rd(sc); s.use(sc, d_, v); s.emit(sc, 'FN1C')
            v = s.newvar(sc, 'v'); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETN')
        else: # a closure over a variable: gives its value when called
            b = Sc(sc, 3); b.given_vars = [gen_vm.Var('', 'v', 1)]
            if r.random() < .4: s.step(b, 0)
            s.expr(b, 1); bi = s.finish(b)
            s.emit(sc, 'DFND', s.block(0, False, [[bi], [bi], [], [], []])); v = s.newvar(sc, 'k'); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETN')
        s.emit(sc, 'POPS')
    def main(s, n):
        s.blocks.append(None); b = Sc(None, 0)
        for _ in range(s.r.choice([1, 2, 3])):
            s.emit(b, 'PUSH', s.c(s.val())); v = s.newvar(b, 'v'); s.emit(b, 'VARM', 0, v.slot); s.emit(b, 'SETN'); s.emit(b, 'POPS')
        for _ in range(n): s.step(b)
        k = 0
        for v in b.vars:
            if v.defd and v.t == 'v': s.emit(b, 'VARO', 0, v.slot); k += 1
        for v in b.vars: # what the closures and fields hold now
            if v.t == 'k': s.emit(b, 'PUSH', s.c([0, 0])); s.emit(b, 'VARO', 0, v.slot); s.emit(b, 'FN1C'); k += 1
            elif isinstance(v.t, tuple):
                for f, _ in v.t[1]: s.emit(b, 'VARO', 0, v.slot); s.emit(b, 'FLDO', f); k += 1
        s.emit(b, 'LSTO', k); bi = s.finish(b); s.blocks[0] = {'ty': 0, 'imm': True, 'b': [[bi], [], [], [], []]}
        # constants once more: they are shared with everything made from them
        return {'objs': s.objs, 'blocks': s.blocks, 'bodies': s.bodies}
def gen_C03(seed, scale):
    rng = random.Random(seed); jobs = []
    for i in range(int(400*scale)):
        p = A(rng).main(rng.choice([4, 6, 8, 12, 16]))
        jobs.append({'p': p, 'r': [], 'n': rng.choice([1, 2])})
    return jobs
