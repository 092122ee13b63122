"""histories of •SH calls, with scripted processes"""
import ctypes as C, json, os, random, shutil, signal, subprocess, tempfile
from bq import *
KID = os.path.join(os.environ.get('VERIF_BUILD') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build'), 'kid')
def unit(mode, s, u): return chr(0x10000+(s << 18)+u).encode() if mode == 'u' else bytes([0x60+s]+[0x20+(u >> 6*(3-k) & 63) for k in (1, 2, 3)]) if mode == 'a' else bytes([0xfd+s, u & 255, u >> 8 & 255, u >> 16 & 255])
_st = {}
def stream(mode, s, n):
    """first n bytes of stream s, as the process makes them: units of four bytes that name the stream and the position"""
    if (mode, s) not in _st: _st[mode, s] = bytearray()
    q = _st[mode, s]
    for u in range(len(q)//4, (n+3)//4): q += unit(mode, s, u)
    return bytes(q[:n])
def which(mode, q):
    """stream and unit number of four bytes"""
    if mode == 'u':
        try: c = ord(q.decode())-0x10000
        except (UnicodeDecodeError, TypeError): return None
        s, u = c >> 18, c & 0x3ffff
    elif mode == 'a': s, u = q[0]-0x60, (q[1]-0x20)*4096+(q[2]-0x20)*64+q[3]-0x20
    else: s, u = q[0]-0xfd, q[1]+256*q[2]+65536*q[3]
    return (s, u) if 0 <= s < 3 and 0 <= u < 1 << 18 and unit(mode, s, u) == q else None
def runs(data, mode, text=None):
    """data as runs of the streams"""
    if text is not None:
        l = 0
        while l < len(data) and data[l:l+1] == text[l:l+1]: l += 1
        return ([['i', 0, l]] if l else [])+([['?', data[l], len(data)-l]] if l < len(data) else [])
    o = []; i = 0
    def add(k, f, n):
        if o and o[-1][0] == k and o[-1][1]+o[-1][2] == f: o[-1][2] += n
        else: o.append([k, f, n])
    while i+4 <= len(data) and len(o) < 40:
        t = which(mode, data[i:i+4])
        if t is None: o.append(['?', data[i], 1]); i += 1
        else: add('ioe'[t[0]], t[1]*4, 4); i += 4
    t = data[i:]
    if t: # part of a unit: the next of the last run, or the first of a stream
        if len(t) > 3: o.append(['?', 0, len(t)]); return o
        for k, f in ([(o[-1][0], o[-1][1]+o[-1][2])] if o and o[-1][0] != '?' else [('i', 0), ('o', 0), ('e', 0)]):
            if f % 4 == 0 and unit(mode, 'ioe'.index(k), f//4)[:len(t)] == t: add(k, f, len(t)); break
        else: o.append(['?', t[0], len(t)])
    return o
def mkopts(R):
    b = R.b; nl = lambda *n: b.makeF64Vec(len(n), (C.c_double*len(n))(*n)) if n else b.makeObjVec(0, (V*1)()); L = R.list_; R.opts = {}
    code = [1,1,7, 0x20,0,2, 0x21,0,3, 0x30, 6, 0x20,0,1, 0x21,0,4, 0x30, 6, 8]
    for k, names in {'both': ('stdin', 'raw'), 'in': ('stdin', 'other'), 'raw': ('other', 'raw'), 'none': ('other', 'more')}.items():
        R.opts[k] = R.call(b.ev('•CompObj'), [nl(*code), nl(), L([L([b.makeF64(0), b.makeF64(1), b.makeF64(0)]), L([b.makeF64(0), b.makeF64(0), L([nl(), nl(1)])])]), L([L([b.makeF64(0), b.makeF64(0), nl(), nl()]), L([b.makeF64(3), b.makeF64(5), nl(1, 2), nl(1, 1)])]), nl(), L([nl(), nl(), L([L([b.sv(n) for n in ('unused',)+names])])])])
def left():
    """descriptors open, children not waited for, and what is done on SIGPIPE"""
    fds = len(os.listdir('/proc/self/fd')); z = 0
    try:
        if os.waitpid(-1, os.WNOHANG)[0] >= 0: z = 1
    except ChildProcessError: pass
    s = open('/proc/self/status').read(); g = lambda k: int(s.split(k+':\t')[1].split()[0], 16) >> 12 & 1
    return [fds, z, g('SigIgn')*2+g('SigCgt')]
def data(b, v):
    """bytes or code points of a result"""
    n = b.bound(v); buf = (C.c_uint32*max(n, 1))()
    if n == 0: return []
    if b.directArrType(v) not in (5, 6, 7): raise ValueError
    b.readC32Arr(v, buf); return list(buf)[:n]
def job(R, j, seed):
    b = R.b; signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    if not hasattr(R, 'opts'):
        mkopts(R); R.sh = b.ev('((1˙)⋈•SH)⎊((0˙)⋈(•CurrentError⊢))')
        R.shx = [b.ev(t) for t in ('(⟨⟩⥊⊢)', '(2‿0⥊⊢)')] if False else None
    outs = {}
    for rep in range(j.get('n', 1)):
        rng = random.Random(seed*7+rep); resp = []; d = tempfile.mkdtemp(prefix='sh'); side = os.path.join(d, 'side')
        try:
            for op in j['h']:
                base = left(); k = op[0]
                def end(o): l = left(); resp.append(o+[[l[0]-base[0], l[1], l[2]-base[2]]])
                def strs(l): return R.list_([b.makeC32Vec(len(t), (C.c_uint32*len(t))(*t)) if t and rng.random() < .5 else b.sv(''.join(map(chr, t))) if t else b.makeC8Vec(0, (C.c_uint8*1)()) for t in l])
                def call(opt, args):
                    x = strs(args)
                    if opt is None: r = b.call1(R.sh, x)
                    else: r = b.call2(R.sh, opt, x); b.free(opt)
                    b.free(x); p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r)
                    if not ok:
                        e = b.rd(p); R.lasterr = ''.join(chr(q[1]) for q in e[2] if q[0] == 1) if e[0] == 2 else ''
                        b.free(p); return None
                    q = [b.pick(p, i) for i in range(3)]; n = b.bound(p); b.free(p)
                    o = [int(b.readF64(q[0]))]+[data(b, v) for v in q[1:]]
                    for v in q: b.free(v)
                    return o
                def mkin(by, mode, raw):
                    n = len(by)
                    if n == 0: return b.makeObjVec(0, (V*1)())
                    t = list(by) if raw else [ord(c) for c in by.decode()]; m = len(t); mx = max(t); z = rng.random()
                    if raw and z < .3:
                        if mode == 'a' and z < .15: return b.makeI8Vec(m, (C.c_int8*m)(*t))
                        return b.makeI16Vec(m, (C.c_int16*m)(*t)) if z < .2 else b.makeF64Vec(m, (C.c_double*m)(*t)) if z < .25 else b.makeI32Vec(m, (C.c_int32*m)(*t))
                    v = b.makeC8Vec(m, (C.c_uint8*m)(*t)) if mx < 256 and z < .6 else b.makeC32Vec(m, (C.c_uint32*m)(*t))
                    if z > .8:
                        q = b.call1(R.prep((rng.random() < .5, rng.choice(['Ac32', 'Sc32', '']+(['Af', 'Sf'] if m < 50000 else [])))), v); b.free(v); v = q
                    return v
                if k == 'sh': # sh SCRIPT MODE N RAW TEXT
                    _, sc, mode, n, raw, text = op; f = lambda c: c not in (None, [])
                    by = ''.join(map(chr, text)).encode() if text else stream(mode, 0, n)
                    if not raw and not by and rng.random() < .5: opt = None
                    else:
                        kind = ('both' if by or rng.random() < .5 else 'raw') if raw else 'both' if rng.random() < .4 else 'in'
                        w = mkin(by, mode, raw); r = b.makeF64(raw); opt = b.call2(R.opts[kind], w, r); b.free(w); b.free(r)
                    if os.path.exists(side): os.unlink(side)
                    o = call(opt, [list(map(ord, KID)), list(map(ord, side)), [ord(mode)]]+[list(map(ord, s[0]+str(s[1]))) for s in sc])
                    if o is None: end([9, R.lasterr and [ord(c) for c in R.lasterr[:80]]]); continue
                    enc = lambda l: bytes(l) if raw and all(c < 256 for c in l) else b'?' if raw else ''.join(map(chr, l)).encode('utf-8', 'replace')
                    rd = open(side, 'rb').read() if os.path.exists(side) else b'?'
                    tx = by if text else None; end([o[0], runs(enc(o[1]), mode, tx), runs(enc(o[2]), mode, tx), runs(rd, mode, tx)])
                elif k == 'args':
                    r = b.makeF64(1); opt = b.call2(R.opts['raw'], r, r); b.free(r)
                    o = call(opt, [list(map(ord, KID)), list(map(ord, 'args'))]+op[1])
                    if o is None: end([9]); continue
                    q = bytes(o[1]).split(b'\0'); end([o[0], [list(e) for e in q[:-1]] if q[-1] == b'' else [[0]], o[2]])
                elif k == 'path': # a program found by name
                    o = call(None, [list(map(ord, s)) for s in op[1]]); end([9] if o is None else o)
                elif k == 'fail':
                    ok = 0; p = list(map(ord, {'none': '/nonexistent/program', 'name': 'no-such-program-zz', 'dir': d, 'file': '/dev/null', 'empty': ''}[op[1]]))
                    for _ in range(op[2]): ok += call(None, [p]) is not None
                    end([9] if ok == 0 else [ok])
                elif k == 'bad':
                    K = list(map(ord, KID)); z = op[1]; one = b.makeF64(1)
                    def opts(w, r): o = b.call2(R.opts['both'], w, r); b.free(w); b.free(r); return o
                    S = lambda *l: R.list_(list(l))
                    if z == 'nested': x = None; w = opts(S(b.makeF64(1), b.sv('ab')), b.makeF64(1))
                    elif z == 'atom': x = None; w = opts(b.makeF64(3), b.makeF64(1))
                    elif z == 'rawval': x = None; w = opts(b.sv('ab'), b.makeF64(2))
                    elif z == 'nonchar': x = None; w = opts(S(b.makeF64(1), b.sv('ab')), b.makeF64(0))
                    elif z == 'opt': x = None; w = b.makeF64(1)
                    elif z == 'argatom': w = None; x = S(b.sv(KID), b.makeChar(97))
                    elif z == 'argrank': w = None; x = S(b.sv(KID), b.makeC8Arr(2, (C.c_size_t*2)(1, 2), (C.c_uint8*2)(97, 98)))
                    elif z == 'argnum': w = None; x = S(b.sv(KID), S(b.makeF64(97)))
                    elif z == 'empty': w = None; x = b.makeObjVec(0, (V*1)())
                    elif z == 'atomx': w = None; x = b.makeF64(1)
                    if x is None: x = S(b.sv(KID), b.sv(side), b.sv('b'), b.sv('R0'))
                    r = b.call1(R.sh, x) if w is None else b.call2(R.sh, w, x); b.free(x)
                    if w is not None: b.free(w)
                    p = b.pick(r, 0); ok = b.readF64(p); b.free(p); b.free(r); end([9] if not ok else [1]); b.free(one)
        finally: shutil.rmtree(d, ignore_errors=True)
        outs.setdefault(json.dumps(resp), []).append(rep)
    return outs
