"""runs histories of session operations in the executable"""
import json, os, re, shutil, subprocess, tempfile
import lang
def cps(t): return [ord(c) for c in t]
def real(e, root):
    """the text as given to the process: paths below /R are below root; texts inside become strings"""
    if isinstance(e, list):
        if e and e[0] == 's': return ['s', cps(root)+e[1]] if e[1][:2] == [47, 82] and e[1][2:3] in ([], [47]) else e
        if e and e[0] == 'tx': return ['s', cps(dumps(e[1], root))]
        return [real(x, root) for x in e]
    return e
def dumps(t, root): return json.dumps({'s': real(t[0], root), 'x': t[1]})
def outside(t, root): return t.replace(root+'/', '/').replace(root+'"', '"')
class Bad(Exception): pass
def parse(t):
    """printed value"""
    def val(i):
        c = t[i]
        m = re.compile(r'¯?[0-9.]+').match(t, i)
        if m: v = int(m.group().replace('¯', '-')); return ['n', v], m.end()
        if c == '"': j = t.index('"', i+1); return ['s', cps(t[i+1:j])], j+1
        if c == '⟨':
            i += 1; l = []
            while t[i] != '⟩':
                v, i = val(i); l.append(v)
                if t[i:i+2] == ', ': i += 2
            return ['l', l], i+1
        if c == '{':
            d = 0; j = i
            while True:
                d += (t[j] == '{')-(t[j] == '}'); j += 1
                if d == 0: return ['o'], j
        if c == '(': j = t.index(')', i); return ['o'], j+1
        j = i
        while j < len(t) and t[j] not in ',⟩': j += 1
        return ['o'], j
    try:
        v, i = val(0)
        return v if i == len(t) else ['o']
    except (ValueError, IndexError): return ['?', t[:60]]
def run(exe, j, timeout=20, extra=()):
    h = j['h']; root0 = tempfile.mkdtemp(prefix='sess'); root = root0; os.mkdir(root+'/R')
    try:
        a, b = os.pipe(); c, d = os.pipe()
        p = subprocess.Popen([exe, *extra, '-s'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(a, d), cwd=root+'/R', env=dict(os.environ, VERIF_COMP='%d,%d' % (a, d)))
        os.close(a); os.close(d); S = lang.Server(c, b); S.start()
        # lines are given one after the other, as files change between them
        import threading, queue
        q = queue.Queue()
        def rd(f, k):
            for l in f: q.put((k, l.decode(errors='replace').rstrip('\n')))
            q.put((k, None))
        for f, k in ((p.stdout, 1), (p.stderr, 2)): threading.Thread(target=rd, args=(f, k), daemon=True).start()
        o = []
        for n, op in enumerate(h):
            k = op[0]
            if k == 'file':
                f = root+op[1]; os.makedirs(os.path.dirname(f), exist_ok=True)
                if os.path.lexists(f): os.unlink(f)
                if op[3][0] == 'ln': os.symlink(root+op[3][1] if op[3][1][0] == '/' else op[3][1], f)
                elif op[3][0] == 't': open(f, 'w').write(dumps(op[3][1], root))
                o.append([["done"], []]); continue
            l = dumps(op[1], root) if k == 'line' else ')r '+dumps(op[1], root) if k == 'r' else ')erase '+op[1] if k == 'erase' else ')ex '+root+op[1] if k == 'ex' else ')'+k
            mark = '§%d§' % n
            try:
                p.stdin.write(('%s\n%s\n%s\n' % (l, json.dumps(mark), json.dumps({'s': [['!', cps(mark)]]}))).encode()); p.stdin.flush()
            except BrokenPipeError: pass
            out, err = [], []; seen = 0
            while seen < 2:
                try: w, t = q.get(timeout=timeout)
                except queue.Empty: o.append([["crash", 99], []]); raise Bad('no answer')
                if t is None: o.append([["crash", p.wait()], []]); os.environ.get('SESSDBG') and print(out[-20:], err[-20:]); raise Bad('process ended')
                if w == 1 and t == '"%s"' % mark: seen += 1
                elif w == 2 and t == 'Error: '+mark: seen += 1
                else: (out if w == 1 else err).append(t)
            # the trace of the marker's own error follows; it is removed from the next operation's messages
            es = [t[7:] for t in err if t.startswith('Error: ')]; outs = [outside(t, root) for t in out]
            says = [cps(t) for t in outs if t.startswith('o:')]; rest = [t for t in outs if not t.startswith('o:')]
            if k == 'vars': res = ['vars', [x for x in rest[0].split(', ') if x] if rest else []]
            elif k == 'erase': res = ['erase', len(rest)]
            elif es: res = ['E', cps(outside(es[0], root))]
            elif k == 'line' and rest: res = parse(rest[0])
            else: res = ['none', rest]
            if len(es) > 1 or (es and rest and k in ('line', 'r', 'ex')) or len(rest) > 1: res = ['?', rest[:3], es[:3]]
            o.append([res, says])
    except Bad: pass
    finally:
        try: p.stdin.close()
        except OSError: pass
        try: rc = p.wait(5)
        except subprocess.TimeoutExpired: p.kill(); rc = p.wait()
        if rc != 0 and not (o and o[-1][0][0] == "crash"): o.append([["crash", rc], []])
        for f in (p.stdout, p.stderr): pass
        S.join(2); [f.close() for f in (S.i, S.o)]
        shutil.rmtree(root0, ignore_errors=True)
    return o
