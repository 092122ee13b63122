"""file operation histories in a scratch directory, as an unprivileged user"""
import os, json, random, resource, shutil, signal, threading
from bq import *
FIELDS = dict(wchars='chars', wbytes='bytes', wlines='lines', rchars='chars', rbytes='bytes', rlines='lines', mbytes='mapbytes', exists='exists', type='type', size='size', list='list', mkdir='createdir', rename='rename', remove='remove', real='realpath', at='at', at2='at', name='name', parent='parent')
class FSys:
    def __init__(s, R):
        s.R = R; b = s.b = R.b
        top = os.environ['FS_SCRATCH']
        s.real = os.path.join(top, 'a', 'b', 'c')     # writable by nobody but its owner
        s.root = None
        mine = os.path.join(s.real, 'p%d' % os.getpid()); os.makedirs(mine, mode=0o711); os.chown(mine, 65534, 65534)
        cw = os.path.join(s.real, 'cwd%d' % os.getpid()); os.makedirs(cw); os.chown(cw, 65534, 65534)
        for d in (top, os.path.join(top, 'a'), os.path.join(top, 'a', 'b'), s.real): os.chmod(d, 0o711)
        os.chdir(cw); os.setgroups([]); os.setgid(65534); os.setuid(65534)
        s.mine = mine; s.cw = cw; s.n = 0
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        s.prot = b.ev('{f←0⊑𝕩⋄((1˙)⋈(f⊘f))⎊((0˙)⋈(•CurrentError⊢))}')
        s.bqn = b.ev('•BQN'); s.fl = {n: b.sv(n) for n in set(FIELDS.values()) | {'path', 'modified', 'accessed', 'created'}}
    def fresh(s):
        os.chmod(s.mine, 0o711)
        if s.root: os.chmod(s.up, 0o755); shutil.rmtree(s.up)
        s.n += 1
        # the tree is reached as /R in the model
        s.up = os.path.join(s.mine, 'h%d' % s.n); os.mkdir(s.up); s.root = os.path.join(s.up, 'R'); os.mkdir(s.root); os.mkdir(s.root+'/d0')
        os.chmod(s.up, 0o555); os.chmod(s.mine, 0o555)    # nothing is made next to R
        b = s.b; base = s.root+'/d0/'
        w = s.R.list_([b.sv(base), b.sv('n'), b.makeObjVec(0, (V*1)())]); c = b.sv('•file'); s.f = b.call2(s.bqn, w, c); b.free(c)
        s.plain = {}
        for k, src in (('wchars', '•FChars'), ('wbytes', '•FBytes'), ('wlines', '•FLines')): c = b.sv(src); s.plain[k] = s.plain['r'+k[1:]] = b.call2(s.bqn, w, c); b.free(c)
        b.free(w)
    def enc(s, p):
        t = ''.join(map(chr, p))
        return s.up+t if t[:1] == '/' else t
    def dec(s, v):
        """/…/R in responses becomes /R"""
        if v[0] == 2 and v[2] and all(e[0] == 1 for e in v[2]):
            t = ''.join(chr(e[1]) for e in v[2])
            if t.startswith(s.up): t = t[len(s.up):]; return [2, [len(t)], [[1, ord(c)] for c in t]]
        return v
    def call(s, f, w, x):
        b = s.b; p = s.R.call(s.prot, [f])
        r = b.call1(p, x) if w is None else b.call2(p, w, x)
        b.free(p); b.free(x); w is None or b.free(w)
        p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r); o = b.rd(p); b.free(p)
        if not ok: s.R.lasterr = ''.join(chr(c[1]) for c in o[2] if c[0] == 1) if o[0] == 2 else ''; return [9]
        return s.dec(o)
    def field(s, k): return s.b.getField(s.f, s.fl[k])
    def ls(s):
        out = []
        def rec(d, path):
            for n in sorted(os.listdir(d)):
                q = d+'/'+n; p = path+[[ord(c) for c in n]]
                if os.path.islink(q):
                    t = os.readlink(q); t = t[len(s.up):] if t.startswith(s.up) else t; out.append([p, ['l', [ord(c) for c in t]]])
                elif os.path.isdir(q): out.append([p, ['d']]); rec(q, p)
                else: out.append([p, ['f', list(open(q, 'rb').read())]])
        rec(s.root, [[82]])
        return out
    def op(s, o, rng):
        b = s.b; k = o[0]; mk = lambda v: s.R.mkdeep(v, rng)
        def path(p):
            q = b.sv(s.enc(p)) if 0 not in p else b.mk(lst([ch(c) for c in s.enc(p)]))
            if rng.random() < .3 and p: q2 = b.call1(s.R.prep((rng.random() < .5, rng.choice(['', 'Ac32', 'Sc32', 'Ah']))), q); b.free(q); q = q2
            return q
        def fld(k): return b.copy(s.plain[k]) if k in s.plain and rng.random() < .3 else s.field(FIELDS[k])
        if k in ('wchars', 'wbytes', 'wlines'): return s.call(fld(k), path(o[1]), mk(o[2]))
        if k == 'lim':
            resource.setrlimit(resource.RLIMIT_FSIZE, (o[4], resource.RLIM_INFINITY))
            try: return s.call(fld(o[3]), path(o[1]), mk(o[2]))
            finally: resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        if k == 'rename': return s.call(fld(k), path(o[1]), path(o[2]))
        if k == 'at2': return s.call(fld(k), path(o[2]), path(o[1]))
        if k in ('name', 'parent'): return s.call(fld(k), None, b.mk(lst([ch(c) for c in o[1]])))
        if k == 'path': v = s.field('path'); r = s.dec(b.rd(v)); b.free(v); return r
        if k == 'times':
            try: os.utime(s.fs(o[1]), (o[3], o[2]), follow_symlinks=False)
            except (OSError, ValueError): pass
            m = s.call(s.field('modified'), None, path(o[1])); a = s.call(s.field('accessed'), None, path(o[1])); c = s.call(s.field('created'), None, path(o[1]))
            if m == [9] or a == [9] or c == [9]: return [9] if m == a == c else [5, 1]
            return lst([m, a])
        if k == 'badpath':
            f = s.field(o[1])
            return s.call(f, mk(o[2]) if o[1] == 'rename' else None, mk(o[2]))
        if k == 'fifo':
            q = s.root+'/fifo'; os.mkfifo(q); data = bytes(i*7 % 251 for i in range(o[1]))
            def feed():
                try:
                    with open(q, 'wb', buffering=0) as f: f.write(data)
                except OSError: pass
            t = threading.Thread(target=feed); t.start()
            f = s.field('bytes'); x = b.sv(q); p = s.R.call(s.prot, [f]); r = b.call1(p, x); t.join(); os.unlink(q)
            v = b.rd(r); b.free(r); b.free(p); b.free(x); v = v[2][1]
            return lst([num(len(v[2])), num(int(bytes(c[1] for c in v[2]) == data))]) if v[0] == 2 else [9]
        if k == 'ext':
            q = s.fs(o[1])
            try:
                if os.path.isdir(q) and not os.path.islink(q): return [7, 1]
                tmp = os.path.join(s.cw, 'tmp')     # put in place at once: q may go through what it replaces
                if o[2][0] == 'f':
                    with open(tmp, 'wb') as f: f.write(bytes(o[2][1]))
                else: os.symlink(s.enc(o[2][1]), tmp)
                try: os.rename(tmp, q)
                except OSError: os.unlink(tmp)
            except OSError: pass
            return [7, 1]
        if k == 'ls': return s.ls()
        return s.call(fld(k), None, path(o[1]))
    def fs(s, p): t = s.enc(p); return t if t[:1] == '/' else s.root+'/d0/'+t
def job(R, j, seed):
    if not hasattr(R, 'fsys'): R.fsys = FSys(R)
    F = R.fsys; rng = random.Random(seed); F.fresh()
    resp = [F.op(o, rng) for o in j['h']]
    for v in [F.f]: R.b.free(v)
    return {json.dumps(resp): [0]}
