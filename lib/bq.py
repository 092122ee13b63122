"""ctypes binding to a CBQN shared library, and the value codec shared with the TLA+ specification."""
import ctypes as C, struct, json, math
V = C.c_uint64
SMALLMAX = 1073741823
NOW = [6]; ERR = [9]; NCL = [8]
def enc_num(d):
    if d != d: return [3, 32760, 0, 0, 0]
    if -SMALLMAX <= d <= SMALLMAX and d == int(d): return [0, int(d)]
    b = struct.unpack('<Q', struct.pack('<d', d))[0]
    return [3, (b >> 48) & 65535, (b >> 32) & 65535, (b >> 16) & 65535, b & 65535]
def dec_num(v):
    if v[0] == 0: return float(v[1])
    return struct.unpack('<d', struct.pack('<Q', (v[1] << 48) | (v[2] << 32) | (v[3] << 16) | v[4]))[0]
def num(d): return enc_num(float(d))
def ch(c): return [1, c if isinstance(c, int) else ord(c)]
def arr(sh, rv): return [2, list(sh), list(rv)]
def lst(rv): return [2, [len(rv)], list(rv)]
def nums(it): return lst([num(i) for i in it])
def st(s): return lst([ch(c) for c in s])

GL = dict(add='+', sub='-', mul='×', div='÷', pow='⋆', root='√', floor='⌊', ceil='⌈', stile='|', eq='=', ne='≠', lt='<', le='≤', gt='>', ge='≥',
  ltack='⊣', rtack='⊢', shape='⥊', join='∾', couple='≍', pair='⋈', take='↑', drop='↓', ud='↕', shb='»', sha='«', rev='⌽', transp='⍉', slash='/',
  gradeU='⍋', gradeD='⍒', select='⊏', pick='⊑', indexOf='⊐', count='⊒', memberOf='∊', find='⍷', group='⊔', match='≡', nmatch='≢', assert_='!',
  each='¨', tbl='⌜', fold='´', scan='`', insert='˝', cells='˘', swap='˜', const='˙', undo='⁼',
  atop='∘', over='○', before='⊸', after='⟜', val='⊘', catch='⎊', cond='◶', repeat='⍟', rank='⎉', under='⌾', depth='⚇')
GL['and'] = '∧'; GL['or'] = '∨'; GL['not'] = '¬'; GL['assert'] = '!'
PRIMS = [k for k in 'add sub mul div pow root floor ceil stile eq ne lt le gt ge and or not ltack rtack shape join couple pair take drop ud shb sha rev transp slash gradeU gradeD select pick indexOf count memberOf find group match nmatch assert'.split()]

class BQN:
    def __init__(s, path):
        L = s.L = C.CDLL(path)
        def f(n, r, *a):
            g = getattr(L, 'bqn_'+n); g.restype = r; g.argtypes = list(a); setattr(s, n, g)
        sz = C.c_size_t
        f('init', None); f('free', None, V); f('copy', V, V); f('readF64', C.c_double, V); f('readChar', C.c_uint32, V); f('type', C.c_int, V)
        f('toF64', C.c_double, V); f('toChar', C.c_uint32, V)
        f('call1', V, V, V); f('call2', V, V, V, V); f('eval', V, V); f('evalCStr', V, C.c_char_p)
        f('bound', sz, V); f('rank', sz, V); f('shape', None, V, C.POINTER(sz)); f('pick', V, V, sz)
        for n in 'I8 I16 I32 F64 C8 C16 C32 Obj'.split():
            f('read%sArr' % n, None, V, C.c_void_p); f('make%sArr' % n, V, sz, C.c_void_p, C.c_void_p); f('make%sVec' % n, V, sz, C.c_void_p)
        f('hasField', C.c_bool, V, V); f('getField', V, V, V)
        f('makeF64', V, C.c_double); f('makeChar', V, C.c_uint32); f('makeUTF8Str', V, sz, C.c_char_p)
        f('makeBoundFn1', V, C.c_void_p, V); f('makeBoundFn2', V, C.c_void_p, V)
        f('directArrType', C.c_int, V)
        L.bqn_init()
        s._keep = []
    def ev(s, src):
        """evaluate source known to succeed (an uncaught error ends the process)"""
        return s.evalCStr(src.encode())
    def sv(s, t): b = t.encode(); return s.makeUTF8Str(len(b), b)
    def mk(s, v):
        """build a real value from a canonical one"""
        k = v[0]
        if k == 0: return s.makeF64(float(v[1]))
        if k == 3: return s.makeF64(dec_num(v))
        if k == 1: return s.makeChar(v[1])
        if k == 7: return s.fnatom(v[1])
        sh, r = v[1], v[2]
        n = len(r); rk = len(sh)
        shp = (C.c_size_t*max(rk, 1))(*sh)
        ks = {e[0] for e in r}
        if n and ks <= {0, 3}:
            d = (C.c_double*n)(*[e[1] if e[0] == 0 else dec_num(e) for e in r]); return s.makeF64Arr(rk, shp, d)
        if n and ks == {1}:
            return s.makeC32Arr(rk, shp, (C.c_uint32*n)(*[e[1] for e in r]))
        d = (V*max(n, 1))(*[s.mk(e) for e in r])
        return s.makeObjArr(rk, shp, d)     # consumes the elements' references
    _fa = None
    budget = 1 << 60
    def fnatom(s, i):
        if s._fa is None: s._fa = [s.ev(x) for x in ('0', '⊢∘⊢', '⌊', '⌽', '↑', '∘')]; s._fa[1] = s.ev('•BQN'); s._fa[1] = s._fa[5]
        return s.copy(s._fa[i])             # ids used as computed-axis markers: 1 ∘  2 ⌊  3 ⌽  4 ↑
    def rd(s, v, fns=None):
        """canonical value of a real one; functions become [7,type]"""
        t = s.type(v)
        if t == 1: return enc_num(s.readF64(v))
        if t == 2: return [1, s.readChar(v)]
        if t != 0: return [7, 100+t]
        rk = s.rank(v); n = s.bound(v)
        s.budget -= n+1
        if s.budget < 0: return [4]
        sh = (C.c_size_t*max(rk, 1))()
        s.shape(v, sh); sh = list(sh)[:rk]
        e = s.directArrType(v)
        if n and e in (1, 2, 3, 4):
            b = (C.c_double*n)(); s.readF64Arr(v, b)
            return [2, sh, [[0, int(d)] if -SMALLMAX <= d <= SMALLMAX and d == int(d) else enc_num(d) for d in b]]
        if n and e in (5, 6, 7):
            b = (C.c_uint32*n)(); s.readC32Arr(v, b)
            return [2, sh, [[1, c] for c in b]]
        out = []
        for i in range(n):
            p = s.pick(v, i); out.append(s.rd(p)); s.free(p)
        return [2, sh, out]

def tsrc(t, consts):
    """BQN source of a function term; constant operands are collected in consts and read from 𝕩"""
    k = t['k']
    if k == 'p': return GL.get(t['n'], '•'+t['n'])
    if k == 'r':
        if ('r', t['i']) not in consts: consts.append(('r', t['i']))
        return 'R'+'abcdefghij'[t['i']]
    if k == 'c':
        consts.append(t['v']); return '(%d⊑𝕩)' % (len(consts)-1)
    if k == 'y':
        if ('y', t['n']) not in consts: consts.append(('y', t['n']))
        return 'Y'+t['n'].replace('2', 'two').replace('1', 'one')
    if k == 'm1' and t['n'] == 'back': # the image of the preimage
        f = tsrc(t['f'], consts); return '('+('⊣'+f if t.get('d') else f)+'('+f+'⁼))'
    if k == 'm1': return '(%s%s)' % (tsrc(t['f'], consts), GL[t['n']])
    if k == 'm2':
        f = tsrc(t['f'], consts)
        if t['g']['k'] == 'fl': g = '⟨'+','.join(tsrc(x, consts) for x in t['g']['fs'])+'⟩'
        else: g = tsrc(t['g'], consts)
        return '(%s%s%s)' % (f, GL[t['n']], g)
    if k == 't2': g = tsrc(t['g'], consts); return '(%s %s)' % (g, tsrc(t['h'], consts))
    if k == 't3':
        f = tsrc(t['f'], consts); g = tsrc(t['g'], consts); return '(%s %s %s)' % (f, g, tsrc(t['h'], consts))
    raise Exception(k)
def P(n): return {'k': 'p', 'n': n}
def R(i): return {'k': 'r', 'i': i}
def K(v): return {'k': 'c', 'v': v}
def Y(n): return {'k': 'y', 'n': n}
def M1(n, f): return {'k': 'm1', 'n': n, 'f': f}
def M2(n, f, g): return {'k': 'm2', 'n': n, 'f': f, 'g': g}
def T2(g, h): return {'k': 't2', 'g': g, 'h': h}
def T3(f, g, h): return {'k': 't3', 'f': f, 'g': g, 'h': h}
def tshow(t):
    c = []; s = tsrc(t, c)
    for i, v in enumerate(c): s = s if v[0] in ('r', 'y') else s.replace('(%d⊑𝕩)' % i, vshow(v))
    return s
def vshow(v):
    if v == NOW: return ''
    if v[0] == 0: return str(v[1]).replace('-', '¯')
    if v[0] == 3: return repr(dec_num(v)).replace('-', '¯')
    if v[0] == 1: return "@%d" % v[1]
    if v[0] == 2:
        body = '⟨'+','.join(vshow(e) for e in v[2][:400])+'⟩'
        return body if len(v[1]) == 1 else '(' + '‿'.join(map(str, v[1])) + '⥊' + body + ')' if v[1] else '(<'+vshow(v[2][0])+')'
    return str(v)
