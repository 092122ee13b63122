"""source texts: from the grammar, and edits of those"""
import random, re
from bq import *
MON = '-⌊⌈|¬<≠≡≢⊣⊢⥊∾≍⋈↑↓↕«»⌽⍉/⍋⍒⊏⊑⊐⊒∊=>√!'; DYA = '+-×÷⌊⌈|∧∨<>≠=≤≥≡≢⊣⊢⥊∾≍⋈↑↓«»⌽⊏⊑⊐⊒∊⋆/'; TM = '⊢⊣≡≠≢⥊⋈≍<-'; TD = '⊢⊣≡≢⋈∾-+⋈≍'
M1C = '˜˘¨⌜´˝`˙'; M2C = '∘○⊸⟜⊘◶⍟⎊⌾⎉'; SEPS = '⋄,\n'
NAMES = ['a', 'b', 'f', 'g', 'ab', 'aB', 'x1', 'acc', 'w', 'zed9']
class Gen:
    def __init__(s, r, blk): s.r = r; s.v = {}; s.blk = blk; s.ns = False; s.tot = r.random() < .7
    def sp(s): return s.r.choice(['']*5+[' ', '  '])
    def name(s, n, fn):
        o = ''.join(c.upper() if s.r.random() < .15 else c for c in n); return (o[0].upper() if fn else o[0].lower())+o[1:]
    def num(s):
        r = s.r; q = r.random()
        return str(r.randint(0, 9)) if q < .55 else '¯'+str(r.randint(0, 12)) if q < .7 else str(r.choice([10, 16, 64, 100, 127, 128, 255, 256, 32768, 65536, 1000000, 999999999999999, 123456789012])) if q < .85 else '0'*r.randint(1, 3)+str(r.randint(0, 99)) if q < .92 else r.choice('∞@π') if q < .97 else '¯0'
    def ch(s): return "'%s'" % s.r.choice(list("abcz019 '\"#⋄(){}⟨⟩,.←𝕩π\n😀ÿĀ"))
    def string(s): return '"'+''.join(s.r.choice(list("abc xyz019 '#⋄(){}⟨⟩,.←𝕩πĀ😀\n")) for _ in range(s.r.choice([0, 1, 2, 3, 5, 9])))+'"'
    def subj(s, d):
        r = s.r; q = r.random(); vs = [n for n, t in s.v.items() if t == 's']
        if s.blk and q < .3: return '𝕨' if r.random() < .3 else '𝕩.'+s.name(r.choice(['ab', 'cd', 'fn', 'ab', 'zz']), r.random() < .2) if s.ns else '𝕩'
        if vs and q < .4: return s.name(r.choice(vs), False)
        if d <= 0 or q < .55: return s.num()
        if q < .62: return s.ch() if r.random() < .6 else s.string()
        if q < .8: return s.lst(d-1)
        if q < .83: return '(•Out'+s.sp()+s.string()+')'
        if q < .85: e = s.expr(d-1); return '('+s.asg(False)+s.sp()+e+')'
        if q < .855: return '(•math.'+r.choice(['Sin', 'Fact', 'nope', 'E'])+' 3)'
        return '('+s.sp()+s.expr(d-1)+s.sp()+')'
    def lst(s, d):
        r = s.r; n = r.choice([0, 1, 2, 3, 3, 4]); el = [s.expr(d-1) if r.random() < .3 else s.num() if r.random() < .7 else s.subj(d-1) for _ in range(n)]
        if n and r.random() < .06: el[r.randrange(n)] = s.fn(d-1)
        sep = lambda: s.sp()+(r.choice(SEPS) if r.random() < .95 else r.choice([',,', '⋄\n', ' # note\n', '\n,']))+s.sp()
        return '⟨'+(r.choice(['', '', '', ',', '\n'])if n else r.choice(['', '', '⋄', ' ']))+sep().join(el)+(sep() if n and r.random() < .15 else '')+'⟩'
    def fn(s, d, dy=None):
        r = s.r; q = r.random(); vs = [n for n, t in s.v.items() if t == 'f']
        if dy is None: dy = r.random() < .5
        if d <= 0 or q < .5: return r.choice((TD if dy else TM) if s.tot else (DYA if dy else MON))
        if vs and q < .62: return s.name(r.choice(vs), True)
        if q < .66 and [n for n, t in s.v.items() if t == 's']: return s.name(r.choice([n for n, t in s.v.items() if t == 's']), True)
        if q < .76: return s.opnd(d-1, .2)+s.sp()+s.m1()
        if q < .88: return s.opnd(d-1, .3)+s.sp()+s.m2(d)
        if q < .9: e = s.train(d-1); return '('+s.asg(True)+s.sp()+e+')'
        return '('+s.sp()+s.train(d-1)+s.sp()+')'
    def m1(s): return s.r.choice(M1C) if s.r.random() < .95 else '('+s.r.choice(M1C)+')'
    def m2(s, d):
        m = s.r.choice(M2C)
        if m == '◶' and s.r.random() < .8: return '◶'+s.sp()+'⟨'+s.fn(d-1)+','+s.fn(d-1)+'⟩'
        if m == '⍟' or m == '⎉' and s.r.random() < .8: return m+s.r.choice(['0', '1', '2', '¯1', '(≠⊢)'])
        return (m if s.r.random() < .96 else '('+m+')')+s.sp()+s.opnd(d-1, .35)
    def opnd(s, d, ps):
        if s.r.random() < ps: return s.subj(d)
        if s.r.random() < .15: return '('+s.fn(d)+')'
        q = s.fn(d); return q if len(q) == 1 or q[-1] in M1C or q[0] == '(' and q.count('(') == 1 or s.r.random() < .3 else '('+q+')'
    def train(s, d):
        r = s.r; n = r.choice([1, 2, 2, 3, 3, 3, 4, 5]); p = [s.fn(d) for _ in range(n)]
        for i in range(n-3, -1, -2):
            if r.random() < .3: p[i] = s.subj(d-1)
        return ' '.join(p)
    def asg(s, fn):
        r = s.r; old = [n for n, t in s.v.items()]
        if old and r.random() < .35: n = r.choice(old); s.v[n] = 'f' if fn else 's'; return s.name(n, fn)+s.sp()+'↩'
        n = r.choice(NAMES); new = n not in s.v; s.v[n.lower()] = 'f' if fn else 's'
        return s.name(n, fn)+s.sp()+('←' if new or r.random() < .3 else '↩')
    def expr(s, d):
        """an application chain"""
        r = s.r; e = s.subj(d)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < .5: e = s.fn(d, False)+' '*r.choice([0, 0, 1])+e
            else: e = s.subj(d)+s.sp()+s.fn(d, True)+s.sp()+e
            if r.random() < .07: e = s.asg(False)+s.sp()+e
        return e
    def stmt(s, d):
        r = s.r; q = r.random()
        if q < .2: e = s.expr(d); return s.asg(False)+s.sp()+e
        if q < .32: e = s.train(d) if r.random() < .6 else s.fn(d); return s.asg(True)+s.sp()+e
        if q < .47: return '•Out'+s.sp()+(s.string() if r.random() < .8 else s.expr(1))
        return s.expr(d)
    def text(s):
        r = s.r; n = r.choice([1, 1, 2, 2, 3, 4]); st = [s.stmt(r.choice([1, 2, 2, 3])) for _ in range(n)]
        if r.random() < .25: st[-1] = s.train(r.choice([1, 2]))
        elif r.random() < .03: st[-1] = r.choice(list(M1C+M2C)+['(˜)', '⟨˜⟩'])
        sep = lambda: s.sp()+(r.choice(SEPS) if r.random() < .9 else r.choice([' # 1⋄𝕩 "\n', ',\n', '#\n', '⋄ ⋄']))+s.sp()
        t = st[0]
        for q in st[1:]: t += sep()+q
        if r.random() < .15: t = r.choice(['\n', ' ', ',', '# c\n'])+t
        if r.random() < .15: t += r.choice(['\n', ' ', ',', ' # end', '#', '⋄'])
        if s.blk or r.random() < .05: t = r.choice(['', '', ' ', '\n', '#a\n'])+'{'+t+'}'+r.choice(['', '', '', ' ', '\n', ' # 𝕊', ',\n'])
        return t
TOKS = list('+-×⌊≠⌽∾⊢()()⟨⟩{}←↩.⋄,\n #"\'¯˜¨´˘∘⊸⟜◶12a F') + ['𝕩', '𝕨', '•Out', '•math', '•zzz', '‿', '_', '𝕊', 'a←', 'F←', 'F↩', 'b', '()', "''", '""', '·', '\t', '⇐', '𝕏', '∞', 'π', '@', '¯1', '1 2', '"s"', '.a', '\0', '↩', '←5', '?', ';', ':', '[', ']', '°', '\U0010ffff']
def edit(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(t)+1); q = r.random()
        if q < .35: t = t[:i]+r.choice(TOKS)+t[i:]
        elif q < .65 and t: i = r.randrange(len(t)); t = t[:i]+t[i+1:]
        elif q < .8 and t: i = r.randrange(len(t)); t = t[:i]+r.choice(TOKS)+t[i+1:]
        elif q < .88 and len(t) > 1: i = r.randrange(len(t)-1); t = t[:i]+t[i+1]+t[i]+t[i+2:]
        elif q < .94: t = t[:i]
        else: j = min(len(t), i+r.randint(1, 6)); t = t[:i]+t[i:j]+t[i:]
    return t
def sysok(t):
    return all(m.lower() in ('out', 'math', 'zzz', '', 'ou', 'o', 'mat', 'outa', 'outf') for m in re.findall('•([A-Za-z0-9]*)', t))
BIG = re.compile('(?<![0-9])[0-9]{8,11}(?![0-9])')   # sizes that are possible but slow
REP = re.compile('⍟(?! *(¯?[0-9]{1,2}(?![0-9])|\\(≠⊢\\)|[^ 0-9¯(]|$))')   # repeat counts that could be large
def one(r):
    blk = r.random() < .35; g = Gen(r, blk); g.ns = blk and r.random() < .25; t = g.text()
    if r.random() < .4: t = edit(r, t)
    while not sysok(t) or len(t) > 150 or REP.search(t) or BIG.search(t): t = Gen(r, blk).text()
    d = r.choice([num(r.randint(-3, 9)), nums([r.randint(-3, 9) for _ in range(r.randint(0, 5))]), st('abc'), arr([2, 2], [num(1), num(2), num(3), num(4)])])
    x = [7, 206, [[[ord(c) for c in n], v] for n, v in (('ab', num(r.randint(0, 9))), ('cd', nums([1, 2, 3])), ('fn', num(7)))]] if g.ns else d
    return ['text', [ord(c) for c in t], r.choice([num(2), num(0), nums([3, 1]), st('xy')]), x]
SHORT = ['1', '⟨⟩', 'a', 'F', 'a←', 'F←', 'a↩', '+', '-', '⊢', '⋈', '˜', '¨', '⊸', '∘', '(', ')', '⟨', '⟩', '⋄', ',', "'x'", '"s"', '2', '•Out"o"', '{', '}', '𝕩', '𝕨', '.a', '#', '˝', '⍟']
def short(r):
    """a short sequence of tokens, brackets mostly balanced"""
    n = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6]); t = [r.choice(SHORT) for _ in range(n)]; o = []
    if r.random() < .8:
        for q in t:
            if q in '(⟨': o.append(q)
            elif q in ')⟩': q = '' if not o else ')' if o.pop() == '(' else '⟩'
        t += [{'(': ')', '⟨': '⟩'}[q] for q in reversed(o)]
    t = r.choice(['', ' ']).join(t)
    if r.random() < .4: t = r.choice(['a←3⋄', 'F←⋈⋄', 'a←⟨1,2⟩⋄F←-⋄', 'f←2\n'])+t
    if '{' not in t and '}' not in t and ('𝕩' in t or '𝕨' in t) and r.random() < .9: t = '{'+t+'}'
    if REP.search(t): return short(r)
    x = r.choice([num(r.randint(-3, 9)), nums([3, 1, 2])])
    return ['text', [ord(c) for c in t], r.choice([num(2), nums([3, 1, 2])]), x]
def gen_C15(seed, scale):
    r = random.Random(seed*131+3)
    return [{'mod': 'src', 'h': [one(r) for _ in range(10)], 'n': 2} for _ in range(int(500*scale))]+[{'mod': 'src', 'h': [short(r) for _ in range(25)], 'n': 2} for _ in range(int(200*scale))]
def show(h, o):
    if any(isinstance(q, int) or len(q) < 3 for q in o): return '; '.join(repr(''.join(map(chr, op[1]))) for op in h)+' -> the process ended: %r' % o
    f = lambda q: '%s %s %s' % ({9: 'error', 0: 'value', 7: 'function', 10: 'modifier'}.get(q[0], q[0]), repr(''.join(map(chr, q[1]))) if len(q) > 1 and q[1] else '', ' | '.join('error' if e == [9] else vshow(e) for e in q[2]) if len(q) > 2 else '')
    return '; '.join('%r [%s,%s] -> %s' % (''.join(map(chr, op[1])), vshow(op[2]), vshow(op[3]) if op[3][0] != 7 else 'namespace', f(q)[:100]) for op, q in zip(h, o))
