"""runs of the executable: arguments, input, files (texts in the language of lib/lang.py)"""
import random, json
from gen_env import G, N, V, S, Y, L, C, C2, D, U, F, A, T, TX, ERR, cp, ts, es
UNI = ['', ' ', 'a b', 'héllo', '⊑⟨⟩', '𝕩𝕨', '-e', '--help', '-', 'tab\there', 'two\nlines', '"q"', "it's", '\\n', '*', '$HOME', 'x'*300, '\x01', '~', '/R/p', 'end\\', '€\U0001F600', 'a=b', '%s%d%n', '\r', ' lead', 'trail ']
TERM = lambda f: ['.', Y('term'), f]
class P(G):
    def str_(s):
        r = s.r
        return r.choice(UNI) if s.p(.4) else ''.join(r.choice('ab cé∘𝕩\n~"\'\\%\t') for _ in range(r.choice([0, 1, 3, 8, 40])))
    def io(s, stdin, args):
        """a statement that reads, writes, or ends"""
        r = s.r; q = r.random(); gl = C(Y('getline'), r.choice([N(0), S('x')]))
        if q < .28: return C(Y('out'), S(s.str_()))
        if q < .38: return C(Y('out'), gl)
        if q < .42: return ['t', F(C(Y('out'), gl)), F(r.choice([CUR, C(Y('out'), S('eof'))])), N(0)]
        if q < .5: return D(r.choice(['g1', 'g2', 'g3']), gl)
        if q < .55: return C(TERM('outraw'), S(''.join(chr(r.choice([10, 65, 97, 200, 255, 128, 1, 0, 32])) for _ in range(r.choice([0, 1, 4, 20])))))
        if q < .59: return C(TERM('errraw'), S(''.join(chr(r.choice([10, 65, 97, 200])) for _ in range(r.choice([0, 1, 4])))))
        if q < .62: return r.choice([C(TERM('flush'), N(0)), C(TERM('outraw'), N(3)), C(Y('out'), N(3)), C(TERM('outraw'), S('a∘'))]) if s.p(.5) else C(TERM('flush'), N(0))
        if q < .66: return C(TERM('charb'), N(0)) if s.p(.5) else D(r.choice(['g1', 'g2']), C(TERM('charb'), N(0)))
        if q < .7: return C(Y('exit'), r.choice([N(0), N(1), N(2), N(7), N(255), N(256), N(-1), S('x'), L([]), N(3), C(['p', '≠'], Y('args')) if args else N(4)]))
        if q < .73: return ['t', F(C(Y('exit'), r.choice([N(5), V('g1') if 0 else N(6)]))), F(N(1)), N(0)]
        if q < .77: return ERR(s.tag())
        if q < .8: return C(Y('bqn'), TX([C(Y('out'), S(s.str_())), s.num()]))
        if q < .84: return C(Y('bqn'), gl)
        if q < .9 and args: return C(Y('out'), C2(['p', '⊑'], N(r.choice([0, 0, 1, 1, 2, -1, 3])), Y('args')))
        if q < .93 and args: return C(Y('out'), r.choice([Y('path'), Y('name')]))
        if q < .96: return C(F(C(Y('out'), ['x'])), S(s.str_()))
        return s.num()
    def text(s, stdin=(), args=False, n=None, names=(), val=False):
        r = s.r; l = []; have = set()
        for _ in range(n or r.choice([0, 1, 1, 2, 3, 5])):
            e = s.io(stdin, args)
            if e[0] == '=':
                if e[1] in have: continue
                have.add(e[1])
            l.append(e)
        q = r.random()
        if have and q < .5: l.append(C(Y('out'), V(r.choice(sorted(have)))))
        vs = sorted(have)+list(names)
        if val or not l or q > .8:
            q = r.random()
            l.append(S(s.str_()) if q < .2 else N(r.choice([0, -1, 12, -345, 100000])) if q < .35 else L([s.num(), S('ab'), L([]), S('')][:r.randint(0, 4)]) if q < .5 else V(r.choice(vs)) if vs and q < .75 else C(Y('getline'), N(0)) if q < .82 else L([Y('name'), Y('path'), Y('args')]) if q < .9 else A(s.num(), s.num()))
        return T(l)
    def lines(s, repl, maxn=6):
        """standard input"""
        r = s.r; o = []; vs = []
        for _ in range(r.choice([0, 1, 2, 3, maxn])):
            t = r.choice([[10], [10], [10], [13, 10]]); q = r.random()
            if repl and q < .65 or q < .2:
                n = r.choice(['a', 'b', 'c']); z = r.random()
                tx = T([D(n, s.num())]) if z < .2 else T([V(r.choice(vs))]) if vs and z < .35 else s.text(val=s.p(.4), names=vs[:1])
                if z < .2: vs.append(n)
                o.append(dict(k='r' if s.p(.1) and repl else 't', v=tx, t=t))
            else:
                w = s.str_() if not repl or s.p(.4) else r.choice(['', '', 'zz', ')nope', ')exit', ')off', ')gc', ')vars', ' ', '1+', '⟨'])
                if not repl and s.p(.15): w = r.choice(['\0abc', 'a\0b', '\0', 'mid\0', 'a\rb', '\u00e9', 'y'*500])
                w = w.replace('\n', '').rstrip('\r') if w.rstrip('\r') != w or '\n' in w else w
                o.append(dict(k='a', v=list(w.encode()), t=t))
        if o and s.p(.3) and o[-1]['v'] != []: o[-1]['t'] = []
        return o
    def run(s):
        r = s.r; av = []; repl = False; code = lambda v=False: ['t', s.text(val=v)]
        a = lambda t: ['a', cp(t)]
        args = lambda: [a(s.str_().replace('\0', '')) if s.p(.9) else ['t', s.text(n=1)] for _ in range(r.choice([0, 0, 1, 2, 3, 5]))]
        q = r.random()
        if q < .04: return ['run', [], s.lines(True)]
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            z = r.random()
            if z < .35: av += [a('-'+r.choice(['e', 'e', 'e', 're', 'Le', 'se'])), code()]; repl |= av[-2][1] != cp('-e') and av[-2][1] != cp('-Le')
            elif z < .65: av += [a('-p'), code(True)]
            elif z < .8: av += [a('-o'), ['t', T([S(s.str_())])] if s.p(.7) else code(True)]
            elif z < .84: av += [a('-M'), a(r.choice(['2000', '3000', '12x', 'abc', '2000']))]
            elif z < .88: av += [a('-L')]
            elif z < .92: av += [a(r.choice(['-z', '--nope', '--', '--help', '--version', '-h', '-Lh', '-ep', '-pe', '-e', '-Mx', '-fx', '-o', '-p', '-f', '-rz']))]
            elif z < .96: av += [a('-r')]; repl = True
            else: av += [a('-e'), a(r.choice(['zz', '', '1+', '-r', '}']))]
        if s.p(.18): av += [a(r.choice(['-r', '-s', '-s', '-rs', '-sr']))]; repl = True
        z = r.random()
        if z < .45:
            f = r.choice(sorted(s.files)) if s.files and s.p(.9) else r.choice(['/R/nope', '/R/p/', '/R', ''])
            f = s.spell(f, '/R') if f in s.files else f
            av += ([a('-f')] if s.p(.35) or f[:1] == '-' else [])+[a(f)]+args(); inp = s.lines(repl)
        elif z < .6: av += [a('-')]+args(); inp = [dict(k='t', v=s.text(args=True), t=r.choice([[10], []]))] if s.p(.9) else r.choice([[], [dict(k='a', v=cp('zz'), t=[10]), dict(k='a', v=cp('y'), t=[])]])
        else: inp = s.lines(repl)
        return ['run', av, inp]
def history(rng):
    g = P(rng); h = []
    for f in ['/R/a.bqn', '/R/p/b.bqn', '/R/-z', '/R/p/q/c d.bqn', '/R/é']:
        if g.p(.7): h.append(g.put(f, ['t', T(g.text(args=True)[0]+([g.imp(frm=f.rsplit('/', 1)[0], f=f2)] if (f2 := rng.choice(['/R/a.bqn', '/R/p/b.bqn'])) and g.p(.2) else []))]))
    for _ in range(8): h.append(g.run())
    return h
def gen_C24(seed, scale):
    rng = random.Random(seed); return [dict(mod='Proc', h=history(rng), n=1) for _ in range(int(100*scale))]
CUR = C(Y('currenterror'), N(0))
def q(b): return ascii(bytes(b).decode(errors='replace'))[1:-1]
def show(h, o):
    r = []
    for i, op in enumerate(h):
        if op[0] == 'file': r.append('%d: %s := %s' % (i+1, op[1], ts(op[3][1]) if op[3][0] == 't' else op[3])); continue
        a = o[i] if i < len(o) else None
        t = ' '.join('`%s`' % ts(x[1]) if x[0] == 't' else ascii(''.join(map(chr, x[1]))) for x in op[1])
        n = ' '.join(('`%s`' % ts(x['v']) if x['k'] != 'a' else q(x['v']))+q(x['t']) for x in op[2])
        r.append('%d: BQN %s < %s ⇒ %s' % (i+1, t, n, a and ('status %s, output "%s", errors %s, messages "%s"' % (a[0], q(a[1])[:300], [''.join(map(chr, e)) for e in a[2]], q(a[3])[:100]))))
    return '\n'.join(r)
