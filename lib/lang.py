"""A small language, written as JSON texts and compiled to bytecode for the interpreter (served to shim/gen/compiles).

text:  {"s": [statement...], "x": [exported names]}
expr:  ["n",k] ["s",[codepoints]] ["l",[e...]] ["v",name] ["x"] ["+",a,b] ["f",[statements]] ["c",f,x] ["c2",f,w,x]
       ["=",name,e] [":",name,e] ["!",[codepoints]] ["t",f,g,x] ["y",name,[codepoints]] ["ch",glyph] [".",e,name] ["m1",glyph,f] ["m2",glyph,f,g] ["p",glyph]
       ["ns",[[name,e]...]] a namespace made on the spot
"""
import json, os, threading
from gen_vm import OPN
GLYPHS = ["+-×÷⋆√⌊⌈|¬∧∨<>≠=≤≥≡≢⊣⊢⥊∾≍⋈↑↓↕«»⌽⍉/⍋⍒⊏⊑⊐⊒∊⍷⊔!", "˙˜˘¨⌜⁼´˝`", "∘○⊸⟜⌾⊘◶⎉⚇⍟⎊"]
class CompErr(Exception): pass
def s_(t): return 's %d %s' % (len(t), ' '.join(str(ord(c)) for c in t))
def i_(l): return 'i %d %s' % (len(l), ' '.join(map(str, l)))
def l_(l): return 'l %d %s' % (len(l), ' '.join(l))
def defs(e, top=True):
    """names defined in this body, in order of text"""
    if not isinstance(e, list) or not e: return []
    if isinstance(e[0], str):
        if e[0] == 'f': return []
        if e[0] == 'ns': return [n for _, x in e[1] for n in defs(x)]
        r = []
        for x in e[1:]: r += defs(x) if isinstance(x, list) else []
        if e[0] == '=': r = r+[e[1]]
        return r
    r = []
    for x in e: r += defs(x)
    return r
class Comp:
    def __init__(s, glyphs): s.glyphs = ''.join(glyphs); s.cum = [len(glyphs[0]), len(glyphs[0])+len(glyphs[1])]; s.objs = []; s.bc = []; s.blocks = []; s.bodies = []; s.names = []
    def obj(s, t):
        if t not in s.objs: s.objs.append(t)
        return s.objs.index(t)
    def name(s, n):
        if n not in s.names: s.names.append(n)
        return s.names.index(n)
    def prim(s, g, role=None):
        if g not in s.glyphs: raise CompErr('no primitive '+g)
        i = s.glyphs.index(g)
        if role is not None and (i >= s.cum[0])+(i >= s.cum[1]) != role: raise CompErr('role of '+g)
        return s.obj('P %d' % i)
    def look(s, n, scs):
        for d, sc in enumerate(reversed(scs)):
            if n in sc: return d, sc.index(n)
        raise CompErr('undefined '+n)
    def expr(s, e, scs, out, todo):
        o = lambda n, *a: out.extend([OPN[n], *a]); k = e[0]; ex = lambda e: s.expr(e, scs, out, todo)
        if k == 'n': o('PUSH', s.obj('n %d' % e[1]))
        elif k == 's': o('PUSH', s.obj(s_(''.join(map(chr, e[1])))))
        elif k == 'ch': o('PUSH', s.obj('c %d' % ord(e[1])))
        elif k == 'l': [ex(x) for x in e[1]]; o('LSTO', len(e[1]))
        elif k == 'v': o('VARO', *s.look(e[1], scs))
        elif k == 'x': o('VARO', *s.look('𝕩', scs))
        elif k == '+': ex(e[2]); o('PUSH', s.prim('+', 0)); ex(e[1]); o('FN2C')
        elif k == 'f':
            i = len(s.blocks); s.blocks.append(None); todo.append((i, e[1], scs)); o('DFND', i)
        elif k == 'ns':
            i = len(s.blocks); s.blocks.append(None); todo.append((i, e, scs)); o('DFND', i)
        elif k == 'c': ex(e[2]); ex(e[1]); o('FN1C')
        elif k == 'c2': ex(e[3]); ex(e[1]); ex(e[2]); o('FN2C')
        elif k in '=:':
            d, p = s.look(e[1], scs)
            ex(e[2]); o('VARM', d, p); o('SETN' if k == '=' else 'SETU')
        elif k == '!': o('PUSH', s.obj('n 0')); o('PUSH', s.prim('!', 0)); o('PUSH', s.obj(s_(''.join(map(chr, e[1]))))); o('FN2C')
        elif k == 't': ex(e[3]); ex(e[2]); o('PUSH', s.prim('⎊', 2)); ex(e[1]); o('MD2C'); o('FN1C')
        elif k == 'y': o('PUSH', s.obj('S '+s_(e[1])))
        elif k == '.': ex(e[1]); o('FLDO', s.name(e[2]))
        elif k == 'm1': o('PUSH', s.prim(e[1], 1)); ex(e[2]); o('MD1C')
        elif k == 'm2': ex(e[3]); o('PUSH', s.prim(e[1], 2)); ex(e[2]); o('MD2C')
        elif k == 'p': o('PUSH', s.prim(e[1]))
        else: raise CompErr('bad text')
    def stmts(s, l, scs, out, todo, last):
        for i, e in enumerate(l):
            if i: out.append(OPN['POPS'])
            s.expr(e, scs, out, todo)
        out.append(OPN[last])
    def body(s, code, vam, ids, exps):
        s.bodies.append(l_(['n %d' % len(s.bc), 'n %d' % vam, i_(ids), i_(exps)])); s.bc += code; return len(s.bodies)-1
    def text(s, t, env):
        """env: [(depth,name)...] of the scope the text is run in, or None"""
        have = [n for _, n in env or []]; new = []
        for n in defs(t['s']):
            if n in new: raise CompErr('redefined '+n)
            if n in have:
                if dict((b, a) for a, b in env)[n] != -1: raise CompErr('redefined '+n)
            else: new.append(n)
        top = have+new; out = []; todo = []; s.blocks.append(None); x = t.get('x') or []
        if any(n not in top for n in x): raise CompErr('undefined export')
        s.stmts(t['s'], [top], out, todo, 'RETD' if x else 'RETN')
        b = s.body(out, len(top), [s.name(n) for n in top], [int(n in x) for n in top]); s.blocks[0] = l_(['n 0', 'n 1', 'n %d' % b])
        while todo:
            i, l, scs = todo.pop(0); out = []
            if l and l[0] == 'ns':
                loc = [n for n, _ in l[1]]
                for k, (n, e) in enumerate(l[1]):
                    if k: out.append(OPN['POPS'])
                    if loc.count(n) > 1 or defs(e): raise CompErr('redefined '+n)
                    s.expr(e, scs+[[]], out, todo); out += [OPN['VARM'], 0, k, OPN['SETN']]
                out.append(OPN['RETD'])
                b = s.body(out, len(loc), [s.name(n) for n in loc], [1]*len(loc)); s.blocks[i] = l_(['n 0', 'n 1', 'n %d' % b]); continue
            loc = defs(l)
            if len(set(loc)) != len(loc): raise CompErr('redefined')
            s.stmts(l, scs+[['𝕤', '𝕩', '𝕨']+loc], out, todo, 'RETN')
            b = s.body(out, 3+len(loc), [s.name(n) for n in loc], [0]*len(loc)); s.blocks[i] = l_(['n 0', 'n 0', 'n %d' % b])
        n = len(s.bc)
        return l_([i_(s.bc), l_(s.objs), l_(s.blocks), l_(s.bodies), l_([i_([0]*n), i_([0]*n)]), l_(['n 0', 'n 0', l_([l_([s_(n) for n in s.names])]), 'n 0'])])
class Server(threading.Thread):
    """answers compilation requests of one process"""
    def __init__(s, rd, wr):
        super().__init__(daemon=True); s.i = os.fdopen(rd, 'r'); s.o = os.fdopen(wr, 'w'); s.gl = [GLYPHS]; s.log = []
    def str_(s): return ''.join(chr(int(c)) for c in s.i.readline().split()[1:])
    def run(s):
        try:
            while True:
                l = s.i.readline().split()
                if not l: break
                if l[0] == 'G': s.gl.append([s.str_() for _ in range(3)]); r = str(len(s.gl)-1)
                else:
                    nrt, nn = map(int, s.i.readline().split()); id_ = int(l[1]); env = []
                    for _ in range(nn): a = s.i.readline().split(' ', 1); env.append((int(a[0]), ''.join(chr(int(c)) for c in a[1].split()[1:])))
                    t = s.i.readline()
                    if t == '~\n': env = None; t = s.i.readline()
                    src = ''.join(chr(int(c)) for c in t.split()[1:])
                    try:
                        t = json.loads(src)
                        if isinstance(t, str): t = {'s': [['s', [ord(c) for c in t]]]}
                        r = Comp(s.gl[id_]).text(t, env)
                    except CompErr as e: r = 'E '+s_('compile: '+str(e))
                    except (ValueError, KeyError, IndexError, TypeError) as e: r = 'E '+s_('compile: bad text')
                s.o.write(r+'\n'); s.o.flush()
        except (BrokenPipeError, ValueError): pass
