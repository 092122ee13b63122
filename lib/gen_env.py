"""sessions over several environments, and import graphs, in the language of lib/lang.py"""
import random, json
def cp(t): return [ord(c) for c in t]
N = lambda k: ['n', k]
V = lambda n: ['v', n]
S = lambda t: ['s', cp(t)]
Y = lambda n: ['y', n, cp(n)]
L = lambda l: ['l', l]
C = lambda f, x: ['c', f, x]
C2 = lambda f, w, x: ['c2', f, w, x]
D = lambda n, e: ['=', n, e]
U = lambda n, e: [':', n, e]
F = lambda *l: ['f', list(l)]
A = lambda a, b: ['+', a, b]
T = lambda s, x=(): [list(s), list(x)]
TX = lambda s, x=(): ['tx', T(s, x)]
ERR = lambda t='x': ['!', cp('o:'+t)]
OUT = lambda t: C(Y('out'), S('o:'+t))
CUR = C(Y('currenterror'), N(0))
SYS = ['out', 'bqn', 'rebqn', 'import', 'path', 'name', 'args', 'state', 'currenterror', 'listsys']
POOL = ['a', 'b', 'c', 'd', 'e', 'h']
class G:
    def __init__(s, rng, files=False):
        s.r = rng; s.envs = []; s.k = 0; s.fn = {}; s.vars = {}; s.files = {}; s.dirs = ['/R', '/R/p', '/R/p/q', '/R/z']; s.links = {}
        s.main = {}; s.nsv = {}
    def p(s, x): return s.r.random() < x
    def num(s): return N(s.r.choice([0, 1, 2, 3, 7, -1, 10]))
    def tag(s): s.k += 1; return 'm%d' % s.k
    # an expression over the given names; fns: names of functions that may be called
    def ex(s, d, vs, fns=(), fail=.03):
        r = s.r; q = r.random(); e = lambda: s.ex(d-1, vs, fns, fail)
        if q < fail: return ERR(s.tag())
        if d <= 0 or q < .2: return s.num() if s.p(.6) or not vs else V(r.choice(vs))
        if q < .42: return V(r.choice(vs)) if vs else s.num()
        if q < .5: return S(r.choice(['ab', 'x', 'hello']))
        if q < .6: return A(e(), e())
        if q < .68: return L([e() for _ in range(r.randint(0, 3))])
        if q < .76 and fns: return C(V(r.choice(fns)), e())
        if q < .82: return C(F(s.ex(d-1, vs, fns, fail) if s.p(.3) else A(['x'], e())), e())
        if q < .87: return ['t', F(s.ex(d-1, vs, fns, .3)), F(s.r.choice([CUR, ['x'], e()])), e()]
        if q < .9: return C2(['p', r.choice(['⊣', '⊢', '⋈'])], e(), e())
        if q < .92: return C(['m1', '˜', ['p', '⋈']], e())
        if q < .94: return C(['m2', '⎊', F(ERR(s.tag())), F(CUR)], e())
        if q < .96: return L([OUT(s.tag()), e()])
        if q < .98: return ['.', ['ns', [['u', e()]]], r.choice(['u', 'u', 'w'])]
        return C2(['p', '!'], r.choice([S('o:z'), N(4)]), r.choice([N(1), N(0)]))
    def body(s, vs, fns):
        """of a function: may read and modify outer variables and have its own"""
        b = []; loc = list(vs)
        for _ in range(s.r.randint(0, 2)):
            q = s.r.random()
            if q < .35 and vs: b.append(U(s.r.choice(vs), A(V(s.r.choice(vs)), ['x']) if s.p(.4) else s.ex(1, loc, fns)))
            elif q < .6:
                n = s.r.choice(['u', 'v']+POOL[:3])
                if all(x[0] != '=' or x[1] != n for x in b): b.append(D(n, s.ex(1, [v for v in loc if v != n], fns))); loc.append(n)
            elif q < .75: b.append(OUT(s.tag()))
            else: b.append(s.ex(1, loc, fns))
        b.append(s.r.choice([['x'], s.ex(2, loc, fns), F(A(['x'], V(s.r.choice(loc)) if loc else N(1)))]))
        return b
    def stmts(s, vs, fns, n=None, mode='loose', fail=.06):
        """a line: definitions, modifications, values; vs is what may be known, and grows"""
        r = s.r; out = []; new = []
        for _ in range(n or r.choice([1, 1, 1, 2, 2, 3, 4])):
            q = r.random(); kn = vs+new
            if q < .38:
                c = [n for n in POOL if n not in new]
                if mode != 'loose' and s.p(.8): c = [n for n in c if n not in vs] or c
                if not c: continue
                n = r.choice(c); e = s.ex(2, kn if s.p(.9) else kn+[n], fns); out.append(D(n, e)); new.append(n)
            elif q < .58 and kn: out.append(U(r.choice(kn), s.ex(2, kn, fns)))
            elif q < .62: out.append(U(r.choice(POOL), s.num()))
            elif q < .62+fail: out.append(ERR(s.tag()))
            elif q < .74: out.append(OUT(s.tag()))
            elif q < .85 and kn: out.append(L([V(x) for x in r.sample(kn, min(len(kn), 3))]))
            else: out.append(s.ex(3, kn, fns))
        if not out: out = [s.num()]
        if s.p(.02): out.append(V('zz'))
        for x in new:
            if x not in vs: vs.append(x)
        return out
    # options of environments
    def options(s, vs):
        r = s.r; o = []
        m = r.choice(['strict', 'strict', 'loose', 'loose', 'none', None, 'bad'] if s.p(.3) else ['strict', 'loose'])
        if m == 'bad': o.append(['repl', r.choice([S('str'), S('no'), S('loosely'), N(2), S('')])]); m = None
        elif m: o.append(['repl', S(m)])
        sysn = list(SYS); prim = None
        q = r.random()
        if q < .15: o.append(['system', S('none')]); sysn = []
        elif q < .2: o.append(['system', S('all')])
        elif q < .5:
            sysn = r.sample(SYS, r.randint(1, 6))+['zz']*s.p(.04); it = [S(x) for x in sysn]
            for _ in range(r.choice([0, 1, 2])):
                n = r.choice(['out', 'k', 'k', 'cb', 'args', 'path', 'bqn'])
                v = r.choice([s.num(), S('ab'), F(A(['x'], N(1)))]+([F(U(r.choice(vs), ['x'])), F(V(r.choice(vs))), V(r.choice(vs))] if vs else [])+[Y('bqn'), Y('import'), Y('out')])
                it.insert(r.randrange(len(it)+1), L([S(n), v])); sysn.append(n)
            if s.p(.04): it.append(r.choice([N(3), L([N(1)]), L([S('a'), N(1), N(2)])]))
            o.append(['system', L(it)])
        elif q < .53: o.append(['system', r.choice([S('safe'), N(0), L([])])])
        q = r.random()
        if q < .3:
            gl = [('+', ['p', r.choice('++⊣⋈')]), ('⊢', ['p', '⊢']), ('⋈', ['p', '⋈']), ('˜', ['p', '˜']), ('⎊', ['p', '⎊']), ('!', ['p', '!']), ('∘', ['p', '∘']), ('˙', ['p', '˙']), ('⊣', F(A(['x'], N(5)))), ('⊣', ['m1', '˜', ['p', '⋈']])]
            g = r.sample(gl, r.randint(1, len(gl)))
            if s.p(.7): g = [x for x in gl[:1]+gl[4:6] if x not in g]+g
            r.shuffle(g)
            it = [L([['ch', a], b]) for a, b in g]
            if s.p(.06): it.append(r.choice([N(1), L([N(1), ['p', '+']]), L([['ch', '⊣'], N(3)]), L([['ch', '⊣']])]))
            o.append(['primitives', L(it)])
        r.shuffle(o)
        return o, m, sysn
    def sysex(s, sysn):
        """uses of system values"""
        r = s.r; q = r.random()
        n = r.choice(sysn) if sysn and q < .85 else r.choice(SYS+['k', 'cb', 'zz'])
        y = Y(n)
        if n == 'out': return C(y, S('o:'+s.tag()))
        if n == 'currenterror': return r.choice([C(y, N(0)), ['t', F(ERR(s.tag())), F(C(y, N(0))), N(0)]])
        if n in ('bqn',): return C(y, TX([s.num()])) if s.p(.5) else C2(y, L([S(r.choice(s.dirs)), S('nm'), s.num()][:r.randint(0, 3)]), TX([r.choice([Y('args'), Y('path'), Y('name'), Y('state'), s.num()])]))
        if n == 'rebqn': return r.choice([C(C(y, ['ns', []]), TX([D('a', s.num()), A(V('a'), N(1))])), C(C(y, ['ns', [['system', L([S(r.choice(sysn or ['zz']))])]]]), TX([Y(r.choice(sysn or ['out']))]))])
        if n in ('import',): return s.imp(y)
        if n in ('k', 'cb'): return C(y, s.num()) if s.p(.7) else y
        return y if s.p(.8) else L([y, Y(r.choice(sysn or ['zz']))])
    def arg(s): return L([S(s.r.choice(s.dirs+['', 'p', './z', '/R/nope'])), S(s.r.choice(['nm', 'x.bqn', ''])), s.num()][:s.r.choice([0, 1, 2, 3, 3, 3])]) if s.p(.9) else s.r.choice([N(1), S('abc'), L([N(1)]), L([S('/R'), N(3)]), L([S('/R'), S('x'), N(1), N(2)])])
    # files
    def spell(s, f, frm=None):
        """some spelling of a path, absolute or from a directory"""
        r = s.r; q = f.split('/')[1:]; abs_ = frm is None or s.p(.25)
        if abs_: comp = q[1:]; pre = '/R/'
        else:
            fr = frm.split('/')[1:]; k = 0
            while k < min(len(fr), len(q)-1) and fr[k] == q[k]: k += 1
            if s.p(.3): k = r.randint(1, k) if k > 1 else k
            comp = ['..']*(len(fr)-k)+q[k:]; pre = ''
        out = []
        for i, c in enumerate(comp):
            if s.p(.12): out.append('.')
            if s.p(.08) and i: out.append('')
            out.append(c)
            if s.p(.08) and 0 < i < len(comp)-1 and c != '..': out += ['..', c]
        if out and out[0] == '': out = out[1:]
        return pre+'/'.join(out)
    def imp(s, y=None, frm='/R', f=None, dy=.15):
        r = s.r; y = y or Y('import')
        f = f or (r.choice(sorted(s.files)) if s.files and s.p(.93) else '/R/nope.bqn')
        p = S(s.spell(f, frm))
        return C2(y, r.choice([N(5), S('w'), L([N(1), N(2)])]), p) if s.p(dy) else C(y, p)
    def put(s, path, node): s.files[path] = 1; return ['file', path, cp(path), node]
def env_history(rng, n=28):
    g = G(rng); h = []; r = rng; fns = []; envs = []; made = []; mv = []
    def add(l, op='line', x=()): h.append([op, T(l, x)])
    def envline(e, depth=1):
        """text for an environment"""
        q = r.random()
        if q < .55: return g.stmts(e['v'], [], mode=e['m'] or 'none')
        if q < .8: return [g.sysex(e['s'])]+([D(r.choice(POOL), g.sysex(e['s']))] if g.p(.4) else [])
        if q < .88: return [D(r.choice(POOL), F(*g.body(e['v'], [])))]
        if q < .94 and e['v']: return [C(V(r.choice(e['v'])), g.num())]
        return [L([V(v) for v in e['v'][:4]] or [g.num()])]
    if g.p(.8): mv += r.sample(POOL, 2); add([D(x, g.num()) for x in mv])
    while len(h) < n:
        q = r.random()
        if g.p(.04) and mv: add([D(r.choice(mv), g.num())]); continue
        if q < .2: add(g.stmts(mv, fns))
        elif q < .26 and len(fns) < 5:
            f = 'f%d' % len(fns); add([D(f, F(*g.body(mv, fns)))]); fns.append(f)
        elif q < .3 and envs: # a function that evaluates in an environment
            e = r.choice(envs); f = 'f%d' % len(fns)
            add([D(f, F(C(V(e['n']), TX(envline(e)))))]); fns.append(f)
        elif q < .38 and fns: add([C(V(r.choice(fns)), g.num())])
        elif q < .46 and len(envs) < 4:
            o, m, sysn = g.options(mv); e = dict(n='r%d' % len(envs), v=[], m=m, s=sysn); l = [D(e['n'], C(Y('rebqn'), ['ns', o]))]
            if g.p(.1): l[0] = D(e['n'], C2(Y('rebqn'), N(1), ['ns', o]))
            if envs and g.p(.25): # made inside another one
                b = r.choice(envs); l = [D(e['n'], C(V(b['n']), TX([C(Y('rebqn'), ['ns', [x for x in o if x[0] != 'system' or g.p(.5)]])])))]; e['s'] = [x for x in b['s']]
            add(l); envs.append(e)
        elif q < .72 and envs:
            e = r.choice(envs); t = TX(envline(e)) if g.p(.97) else TX([D('a', N(1))], ['a'])
            if g.p(.03): t = r.choice([S('zz'), N(1), S('')])
            c = C2(V(e['n']), g.arg(), t) if g.p(.2) else C(V(e['n']), t)
            z = r.random()
            if z < .1: add([['t', F(c), F(CUR), N(0)]])
            elif z < .2: add([D(r.choice(POOL), c)])
            elif z < .26: add([c, C(V(e['n']), TX(envline(e)))])
            else: add([c])
        elif q < .78:
            t = TX(g.stmts([], [], mode='none')) if g.p(.6) else TX([g.sysex(SYS)]) if g.p(.6) else TX([D('u', g.num()), D('w', F(U('u', A(V('u'), ['x']))))], ['u', 'w'])
            c = C2(Y('bqn'), g.arg(), t) if g.p(.35) else C(Y('bqn'), t)
            if t[1][1]: v = 'n%d' % r.randint(0, 1); add([D(v, c)]); made.append(v)
            else: add([c])
        elif q < .81 and made: v = r.choice(made); add([r.choice([['.', V(v), r.choice(['u', 'zz'])], C(['.', V(v), 'w'], g.num())]), ['.', V(v), 'u']])
        elif q < .85: h.append(['vars'])
        elif q < .88: h.append(['erase', r.choice(mv+['zz']+fns[-1:])])
        elif q < .9: h.append([r.choice(['gc', 'mem', 'clearImportCache'])])
        elif q < .93: add(g.stmts(mv, fns), 'r')
        elif q < .95:
            p = '/R/z/s%d' % r.randint(0, 2); h.append(g.put(p, ['t', T(g.stmts(mv, fns))])); h.append(['ex', p, cp(p)])
        elif q < .97: add([g.sysex(SYS)])
        else: add([L([V(v) for v in mv[:5]] or [N(0)])])
    h.append(['vars'])
    for v in mv: add([V(v)])
    for e in envs:
        for v in e['v'][:4]: add([C(V(e['n']), TX([V(v)]))])
    return h
def imp_history(rng, n=26):
    g = G(rng); r = rng; h = []; paths = ['/R/a.bqn', '/R/p/b.bqn', '/R/p/q/c.bqn', '/R/z/d.bqn', '/R/e.bqn']; envs = []
    def content(f):
        d = f.rsplit('/', 1)[0]; t = 'o:'+f+'#'+g.tag(); l = [C(Y('out'), S(t))]; x = []; vs = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            later = [x for x in known if x > f or g.p(.25)]
            if later: v = 'i%d' % len(vs); vs.append(v); z = r.choice(later); l.append(D(v, g.imp(frm=d, f=z, dy=.15*(z > f)) if g.p(.85) else ['t', F(g.imp(frm=d, f=z, dy=0)), F(r.choice([N(9), CUR])), N(0)]))
        q = r.random()
        if q < .2: l.insert(r.randint(0, len(l)), ERR(g.tag()))
        if q > .8: l += [D('q', g.num()), D('g', F(U('q', A(V('q'), ['x']))))]; x = ['q', 'g']+vs[:1]
        elif q > .5: l.append(L([g.num()]+[V(v) for v in vs]))
        elif q > .4: l.append(L([Y(r.choice(['path', 'name', 'args', 'state'])), g.num()]))
        elif q > .3: l.append(Y('args'))
        else: l.append(g.num())
        return ['t', T(l, x)]
    known = paths
    for f in paths:
        if g.p(.9): h.append(g.put(f, content(f)))
    g.files = {f: 1 for f in paths}
    while len(h) < n:
        q = r.random(); f = r.choice(paths+['/R/l.bqn', '/R/p/l2.bqn'] if g.links else paths)
        def where(f): return g.imp(frm='/R', f=f)
        i = where(f)
        if q < .45:
            z = r.random()
            if z < .6: l = [i]
            elif z < .7: l = [D('a', i)]
            elif z < .78: l = [['t', F(i), F(CUR), N(0)]]
            elif z < .86: l = [i, where(r.choice(paths)), where(f)]
            elif z < .93: l = [L([i, where(f)])]
            else: l = [['.', i, r.choice(['q', 'i0'])]]
            h.append(['line', T(l)])
        elif q < .53: h.append(['line', T([r.choice([C(['.', i, 'g'], g.num()), ['.', i, 'q']]), ['.', where(f), 'q']])])
        elif q < .65: h.append(g.put(f, content(f))); g.files = {f: 1 for f in paths}
        elif q < .68: h.append(['file', f, cp(f), ['d']])
        elif q < .75:
            p = r.choice(['/R/l.bqn', '/R/p/l2.bqn', '/R/zl', '/R/p/up']); t = '/R/z' if p == '/R/zl' else '/R' if p == '/R/p/up' else r.choice(paths)
            if g.p(.3) and p in ('/R/l.bqn',): t = t[3:]
            h.append(['file', p, cp(p), ['ln', t, cp(t)]]); g.links[p] = 1
        elif q < .79: h.append(['clearImportCache'])
        elif q < .83 and len(envs) < 3:
            m = r.choice(['loose', 'strict', None]); e = 'r%d' % len(envs); envs.append(e)
            h.append(['line', T([D(e, C(Y('rebqn'), ['ns', [['repl', S(m)]] if m else []]))])])
        elif q < .92 and envs:
            e = r.choice(envs); d = r.choice(g.dirs); fi = g.imp(frm=d, f=f)
            h.append(['line', T([C2(V(e), L([S(d)]), TX([fi]))])])
        elif q < .96:
            d = r.choice(g.dirs+['/R/zl']); dd = '/R/z' if d == '/R/zl' else d
            h.append(['line', T([C2(Y('bqn'), L([S(d), S('x'), N(4)][:r.randint(1, 3)]), TX([g.imp(frm=dd, f=f)]))])])
        elif q < .98 and g.links:
            p = r.choice(['/R/zl/d.bqn', '/R/p/up/a.bqn', '/R/p/up/p/b.bqn', '/R/zl/../e.bqn', '/R/p/up/z/../p/q/c.bqn'])
            h.append(['line', T([C(Y('import'), S(p))])])
        else: h.append(['ex', f, cp(f)])
    return h
def gen_C16(seed, scale):
    rng = random.Random(seed); return [dict(mod='Env', h=env_history(rng, rng.choice([12, 25, 40])), n=1) for _ in range(int(120*scale))]
def gen_C19(seed, scale):
    rng = random.Random(seed); return [dict(mod='Env', h=imp_history(rng, rng.choice([12, 25, 40])), n=1) for _ in range(int(150*scale))]
def es(e):
    k = e[0]; s = ''.join
    if k == 'n': return str(e[1])
    if k == 's': return '"%s"' % s(map(chr, e[1]))
    if k == 'tx': return '`%s`' % ts(e[1])
    if k == 'l': return '⟨%s⟩' % ','.join(map(es, e[1]))
    if k == 'v': return e[1]
    if k == 'x': return '𝕩'
    if k == 'y': return '•'+e[1]
    if k == 'p': return e[1]
    if k == 'ch': return "'%s'" % e[1]
    if k == '!': return '"%s"!0' % s(map(chr, e[1]))
    if k == '+': return '(%s+%s)' % (es(e[1]), es(e[2]))
    if k == 'c': return '(%s %s)' % (es(e[1]), es(e[2]))
    if k == 'c2': return '(%s %s %s)' % (es(e[2]), es(e[1]), es(e[3]))
    if k == 't': return '(%s⎊%s %s)' % (es(e[1]), es(e[2]), es(e[3]))
    if k == '=': return '%s←%s' % (e[1], es(e[2]))
    if k == ':': return '%s↩%s' % (e[1], es(e[2]))
    if k == 'f': return '{%s}' % '⋄'.join(map(es, e[1]))
    if k == '.': return '%s.%s' % (es(e[1]), e[2])
    if k == 'm1': return '%s%s' % (es(e[2]), e[1])
    if k == 'm2': return '%s%s%s' % (es(e[2]), e[1], es(e[3]))
    if k == 'ns': return '{%s}' % '⋄'.join('%s⇐%s' % (n, es(x)) for n, x in e[1])
    return str(e)
def ts(t): return ' ⋄ '.join(map(es, t[0]))+(' ⇐'+','.join(t[1]) if t[1] else '')
def show(h, o):
    r = []
    for i, op in enumerate(h):
        k = op[0]
        t = ts(op[1]) if k == 'line' else ')r '+ts(op[1]) if k == 'r' else '%s := %s' % (op[1], 'none' if op[3][0] == 'd' else '→'+op[3][1] if op[3][0] == 'ln' else ts(op[3][1])) if k == 'file' else ')'+' '.join(map(str, op[:2]))
        a = o[i] if i < len(o) else None
        def v(x):
            if not isinstance(x, list) or not x: return str(x)
            if x[0] in ('s', 'E'): return x[0]+'"'+''.join(map(chr, x[1]))+'"'
            if x[0] == 'n': return str(x[1])
            if x[0] == 'l': return '⟨'+', '.join(map(v, x[1]))+'⟩'
            return str(x)
        b = str(a) if not a else v(a[0])+(' said '+','.join(''.join(map(chr, c)) for c in a[1]) if a[1] else '')
        r.append('%d: %s ⇒ %s' % (i+1, t, b))
    return '\n'.join(r)
