"""runs of the executable with given arguments, input and files"""
import json, os, re, shutil, subprocess, tempfile, threading
import lang
from sess import dumps, cps
def arg(a, root):
    if a[0] == 't': return dumps(a[1], root).encode()
    t = ''.join(map(chr, a[1]))
    if t[:3] == '/R/' or t == '/R': t = root+t
    return t.encode()
def inp(l, root): return b''.join((bytes(x['v']) if x['k'] == 'a' else (b')r ' if x['k'] == 'r' else b'')+dumps(x['v'], root).encode())+bytes(x['t']) for x in l)
def run(exe, j, timeout=30):
    root = tempfile.mkdtemp(prefix='proc'); os.mkdir(root+'/R'); o = []; rb = (root+'/').encode()
    try:
        for op in j['h']:
            if op[0] == 'file':
                f = root+op[1]; os.makedirs(os.path.dirname(f), exist_ok=True)
                if os.path.lexists(f): os.unlink(f)
                if op[3][0] == 't': open(f, 'w').write(dumps(op[3][1], root))
                o.append(['done']); continue
            a, b = os.pipe(); c, d = os.pipe()
            p = subprocess.Popen([exe.encode()]+[arg(x, root) for x in op[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(a, d), cwd=root+'/R', env=dict(os.environ, VERIF_COMP='%d,%d' % (a, d)))
            os.close(a); os.close(d); S = lang.Server(c, b); S.start()
            try: out, err = p.communicate(inp(op[2], root), timeout)
            except subprocess.TimeoutExpired: p.kill(); p.communicate(); S.join(2); o.append([999, [], [], []]); break
            S.join(2); [f.close() for f in (S.i, S.o)]
            out, err = (x.replace(rb, b'/').replace(rb[:-1]+b'"', b'"') for x in (out, err))
            es = re.findall('Error: (.*)', err.decode(errors='replace'))
            o.append([p.returncode, list(out), [cps(e) for e in es], list(err)[:3000]])
    finally: shutil.rmtree(root, ignore_errors=True)
    return o
