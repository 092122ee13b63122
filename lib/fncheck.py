"""function-application properties: generate jobs, run them on the real builds, validate against spec/BQN.tla"""
import json, random, time
import build, fnrun, gen
from bq import *
def merge(a, b):
    for x, y in zip(a, b):
        if y is None: continue
        for k, v in y.items(): x.setdefault(k, []).extend(v)
    return a
def corrupt(o, rng):
    """an outcome that is certainly different: one leaf altered"""
    v = json.loads(json.dumps(o))
    if v[0] == 9: return [0, 31337]
    def leaves(x, acc):
        if x[0] == 2:
            for e in x[2]: leaves(e, acc)
        elif x[0] in (0, 1, 3): acc.append(x)
        return acc
    ls = leaves(v, [])
    if not ls:
        if v[0] == 2: v[1] = v[1]+[1] if v[1] else [1]; return v
        return [9]
    e = rng.choice(ls)
    if e[0] == 0: e[1] = e[1]+1
    elif e[0] == 1: e[1] = (e[1]+1) % 1114111
    else: e[4] = e[4] ^ 1
    return v
def selftest(cand, caught, bad, msg):
    if cand and caught < len(cand)*.5 and not bad: raise Exception(msg % (caught, len(cand)))
def hard(outs):
    """a recorded outcome stands by itself, unless a process was ended from outside (time or memory)"""
    for k in outs:
        o = json.loads(k)
        if o and isinstance(o[0], int) and o[0] == 5 and o[1] not in (4, 6, 7, 8, 11): return False
        if any(isinstance(e, list) and e and isinstance(e[0], list) and e[0] and e[0][0] == 'crash' and e[0][1] not in (-4, -6, -7, -8, -11, 1) for e in o if isinstance(o[0], list)): return False
    return True
def norec(ctx, outs, what, replay, key=None):
    if hard(outs): ctx.violation('(did not recur when repeated) '+what, replay, **({'key': key} if key else {}))
    else: print('note: a rejected outcome did not recur:', what[:600])
def describe(j, outs, err=''):
    return '%s%s %s  gave %s%s' % ('' if j['w'] == NOW else vshow(j['w'])[:400]+' ', tshow(j['t']), vshow(j['x'])[:400],
        ' | '.join('%s %s' % (vshow(json.loads(k))[:300], [r for r in v[:3]]) for k, v in outs.items()), ' ('+err[:200]+')' if err else '')
def round_(ctx, libs, jobs, seed, pre=None, timeout=150):
    outs = [dict() for _ in jobs]; errs = ['']*len(jobs)
    for k, lib in enumerate(libs):
        js = jobs if k == 0 else [dict(j, n=max(2, j['n']//2)) for j in jobs]
        o, e = fnrun.execute(lib, js, seed+k, pre=pre(k) if pre else None)
        merge(outs, o); errs = [a or b for a, b in zip(errs, e)]
    evals = sum(len(v) for o in outs for v in o.values())
    # the binding: outcomes altered on purpose must be rejected
    rng = random.Random(seed)
    cand = [i for i in range(len(jobs)) if len(outs[i]) == 1 and next(iter(outs[i])) not in ('[4]', '[9]') and not next(iter(outs[i])).startswith('[5')]
    rng.shuffle(cand); cand = cand[:24]
    cj = [jobs[i] for i in cand]; co = [{json.dumps(corrupt(json.loads(next(iter(outs[i]))), rng)): []} for i in cand]
    rej, st = fnrun.validate(jobs+cj, outs+co, timeout=timeout)
    ctx.tlc(st)
    for i in st['undecided']: print('note: not decided by the model checker:', describe((jobs+cj)[i], (outs+co)[i])[:300])
    ctx.cov['undecided'] = ctx.cov.get('undecided', 0)+len(st['undecided'])
    n = len(jobs)
    caught = sum(1 for i in rej if i >= n)
    selftest(cand, caught, any(i < n for i in rej), 'binding self-test: only %d of %d altered outcomes rejected')
    ctx.cov['altered_outcomes_rejected'] = ctx.cov.get('altered_outcomes_rejected', 0)+caught
    ctx.cov['altered_outcomes_tried'] = ctx.cov.get('altered_outcomes_tried', 0)+len(cand)
    ctx.cov['evaluations'] = ctx.cov.get('evaluations', 0)+evals
    ctx.cov['error_outcomes'] = ctx.cov.get('error_outcomes', 0)+sum('[9]' in o for o in outs)
    ctx.cov['unsupported_without_runtime'] = ctx.cov.get('unsupported_without_runtime', 0)+sum('[4]' in o for o in outs)
    ctx.traces(n)
    bad = sorted(i for i in rej if i < n)
    for i in (cand[:3]): ctx.sample(describe(jobs[i], outs[i]))
    return outs, errs, bad
def run(ctx, genf, libs=('so', 'heur'), scale=1.0, reps=1.0, thorough_scale=1.5):
    paths = build.build_all(list(libs)); L = [paths[l] for l in libs]
    r = 0
    while True:
        seed = ctx.seed+1000*r
        jobs = genf(seed, scale if not ctx.thorough() else thorough_scale)
        for j in jobs: j['n'] = max(1, round(j['n']*reps))
        t0 = time.time()
        outs, errs, bad = round_(ctx, L, jobs, seed)
        if bad: confirm(ctx, L, jobs, outs, errs, bad, seed)
        r += 1
        dt = time.time()-t0
        if ctx.violations or not ctx.thorough() or ctx.left() < dt*1.3: break
    ctx.cov['rounds'] = r
def confirm(ctx, L, jobs, outs, errs, bad, seed):
    """re-run rejected cases on their own; only reproducible ones are reported"""
    js = [dict(jobs[i], n=max(20, jobs[i]['n']*4)) for i in bad[:60]]
    o2 = [dict() for _ in js]
    for s in range(2):
        for lib in L:
            o, _ = fnrun.execute(lib, js, seed+s); merge(o2, o)
    rej, st = fnrun.validate(js, o2); ctx.tlc(st)
    for k, i in enumerate(bad[:60]):
        if k in rej:
            what = describe(jobs[i], o2[k], errs[i])
            ctx.violation(what, dict(job=jobs[i], outcomes=o2[k]), key=tshow(jobs[i]['t']))
    left = [i for k, i in enumerate(bad[:60]) if k not in rej]
    if left and not ctx.violations:
        # depended on the state of the run (earlier jobs): repeat the same run
        outs2 = [dict() for _ in jobs]
        for k, lib in enumerate(L):
            o, _ = fnrun.execute(lib, jobs if k == 0 else [dict(j, n=max(2, j['n']//2)) for j in jobs], seed+k); merge(outs2, o)
        rej2, st = fnrun.validate([jobs[i] for i in left], [outs2[i] for i in left])
        for k, i in enumerate(left):
            if k in rej2: ctx.violation('in sequence: '+describe(jobs[i], outs2[i], errs[i]), dict(job=jobs[i], outcomes=outs2[i], in_sequence=True), key=tshow(jobs[i]['t']))
            else: norec(ctx, outs[i], describe(jobs[i], outs[i], errs[i]), dict(job=jobs[i], outcomes=outs[i], in_sequence=True), tshow(jobs[i]['t']))

def describeR(j, outs, err=''):
    return '%s%s %s  (calls of the user functions return %s)  gave %s %s' % ('' if j['w'] == NOW else vshow(j['w'])[:300]+' ', tshow(j['t']), vshow(j['x'])[:300], 'their arguments' if not j['r'] else [vshow(v) if v != ERR else 'an error' for v in j['r']],
        ' | '.join(('%s after calls %s' % (vshow(o[0])[:300], [('abcdefghij'[c[0]], vshow(c[1])[:40], vshow(c[2])[:40]) for c in o[1][:40]]) if isinstance(o[0], list) else 'a crash') for o in map(json.loads, outs)), err[:200])
def calls(ctx, genf, libs=('so', 'heur'), scale=1.0):
    """applications of modifiers to user functions: value, calls and their order"""
    paths = build.build_all(list(libs)); L = [paths[l] for l in libs]; r = 0
    while True:
        t0 = time.time(); seed = ctx.seed+5000+1000*r; rng = random.Random(seed)
        jobs = genf(seed, scale*(3 if ctx.thorough() else 1)); outs = [dict() for _ in jobs]; errs = ['']*len(jobs)
        for k, lib in enumerate(L):
            o, e = fnrun.execute(lib, jobs, seed+k); merge(outs, o); errs = [a or b for a, b in zip(errs, e)]
        cand = [i for i in range(len(jobs)) if len(outs[i]) == 1 and not next(iter(outs[i])).startswith('[5')]
        cand = [i for i in cand if len(json.loads(next(iter(outs[i])))[1]) > 1]; rng.shuffle(cand); cand = cand[:20]; co = []
        for i in cand: # logs altered on purpose: a call dropped, or two exchanged
            o = json.loads(next(iter(outs[i]))); lg = o[1]; q = [a for a in range(len(lg)-1) if lg[a] != lg[a+1]]
            if q and rng.random() < .6: a = rng.choice(q); lg[a], lg[a+1] = lg[a+1], lg[a]
            else: lg.append(lg[-1])
            co.append({json.dumps(o): []})
        rej, st = fnrun.validate(jobs+[jobs[i] for i in cand], outs+co, module='TraceCalls'); ctx.tlc(st); ctx.traces(len(jobs))
        for i in st['undecided']: print('note: not decided by the model checker:', describeR((jobs+[jobs[i] for i in cand])[i], (outs+co)[i])[:300])
        n = len(jobs); caught = sum(1 for i in rej if i >= n)
        selftest(cand, caught, any(i < n for i in rej), 'binding self-test: only %d of %d altered logs rejected')
        ctx.cov['altered_logs_rejected'] = ctx.cov.get('altered_logs_rejected', 0)+caught
        ctx.cov['user_function_calls_logged'] = ctx.cov.get('user_function_calls_logged', 0)+sum(len(json.loads(k)[1]) for o in outs for k in o if not k.startswith('[5'))
        for i in cand[:2]: ctx.sample(describeR(jobs[i], outs[i]))
        bad = sorted(i for i in rej if i < n)[:40]
        if bad:
            o2 = [dict() for _ in bad]
            for lib in L: o, _ = fnrun.execute(lib, [jobs[i] for i in bad], seed); merge(o2, o)
            rj, st = fnrun.validate([jobs[i] for i in bad], o2, module='TraceCalls'); ctx.tlc(st)
            for k, i in enumerate(bad):
                if k in rj or len(outs[i]) > 1: ctx.violation(describeR(jobs[i], o2[k] if k in rj else outs[i], errs[i]), dict(job=jobs[i], outcomes=o2[k]), key=tshow(jobs[i]['t']))
                else: norec(ctx, outs[i], describeR(jobs[i], outs[i], errs[i]), dict(job=jobs[i], outcomes=outs[i]), tshow(jobs[i]['t']))
        r += 1; dt = time.time()-t0
        if ctx.violations or not ctx.thorough() or ctx.left() < dt*1.3 or r >= 4: break

def describeP(j, outs, err=''):
    import gen_vm
    p = j['p']; o = []
    for k, bl in enumerate(p['blocks']): o.append('block %d: %s%s bodies %s' % (k, ['function', '1-modifier', '2-modifier'][bl['ty']], ' immediate' if bl['imm'] else '', bl['b']))
    for k, b in enumerate(p['bodies']): o.append('body %d (%d variables, %d given): %s' % (k, b['nv'], b['given'], ' '.join('.'.join(map(str, x[:1+gen_vm.NARG.get(x[0], 0)])) for x in b['code'])))
    for k, b in enumerate(p['objs']): o.append('constant %d: %s' % (k, vshow(b['v']) if 'v' in b else b.get('n') or tshow(b['t'])))
    return '\n   '.join(['program (user function calls return %s) gave %s %s' % ('their arguments' if not j['r'] else [vshow(v) if v != ERR else 'an error' for v in j['r']],
        ' | '.join(('%s after calls %s' % (vshow(a[0])[:300], [('abcdefghij'[c[0]], vshow(c[1])[:40], vshow(c[2])[:40]) for c in a[1][:40]]) if isinstance(a[0], list) else 'a crash') for a in map(json.loads, outs)), err[:200])]+o)
def programs(ctx, genf, libs=('so', 'heur'), scale=1.0, thorough_scale=3.0, salt=0, rounds=6):
    """whole block programs against the machine of Calls.tla: final values and the calls made on the way"""
    paths = build.build_all(list(libs)); L = [paths[l] for l in libs]; r = 0
    while True:
        t0 = time.time(); seed = ctx.seed+7000+salt+1000*r; rng = random.Random(seed)
        jobs = genf(seed, thorough_scale if ctx.thorough() else scale); outs = [dict() for _ in jobs]; errs = ['']*len(jobs)
        for k, lib in enumerate(L):
            o, e = fnrun.execute(lib, jobs, seed+k); merge(outs, o); errs = [a or b for a, b in zip(errs, e)]
        cand = [i for i in range(len(jobs)) if len(outs[i]) == 1 and not next(iter(outs[i])).startswith('[5') and not next(iter(outs[i])).startswith('[[9]')]
        rng.shuffle(cand); cand = cand[:40]; co = []
        for i in cand: # outcomes altered on purpose: another result, or a call added
            o = json.loads(next(iter(outs[i])))
            if o[1] and rng.random() < .5: o[1].append(o[1][0])
            else: o[0] = corrupt(o[0], rng)
            co.append({json.dumps(o): []})
        rej, st = fnrun.validate(jobs+[jobs[i] for i in cand], outs+co, module='TraceVM'); ctx.tlc(st); ctx.traces(len(jobs))
        for i in st['undecided']: print('note: not decided by the model checker:', describeP((jobs+[jobs[i] for i in cand])[i], (outs+co)[i])[:300])
        n = len(jobs); caught = sum(1 for i in rej if i >= n)
        selftest(cand, caught, any(i < n for i in rej), 'binding self-test: only %d of %d altered outcomes rejected')
        C = ctx.cov
        C['altered_outcomes_rejected'] = C.get('altered_outcomes_rejected', 0)+caught
        C['altered_outcomes_tried'] = C.get('altered_outcomes_tried', 0)+len(cand)
        C['programs'] = C.get('programs', 0)+len(jobs); C['bodies'] = C.get('bodies', 0)+sum(len(j['p']['bodies']) for j in jobs)
        C['instructions'] = C.get('instructions', 0)+sum(len(b['code']) for j in jobs for b in j['p']['bodies'])
        C['error_outcomes'] = C.get('error_outcomes', 0)+sum(any(k.startswith('[[9]') for k in o) for o in outs)
        C['user_function_calls_logged'] = C.get('user_function_calls_logged', 0)+sum(len(json.loads(k)[1]) for o in outs for k in o if not k.startswith('[5'))
        for i in cand[:2]: ctx.sample(describeP(jobs[i], outs[i])[:3000])
        bad = sorted(i for i in rej if i < n)[:40]
        if bad:
            o2 = [dict() for _ in bad]
            for s in range(2):
                for lib in L: o, _ = fnrun.execute(lib, [dict(jobs[i], n=max(3, jobs[i].get('n', 1))) for i in bad], seed+s); merge(o2, o)
            rj, st = fnrun.validate([jobs[i] for i in bad], o2, module='TraceVM'); ctx.tlc(st)
            left = []
            for k, i in enumerate(bad):
                if k in rj: ctx.violation(describeP(jobs[i], o2[k], errs[i]), dict(job=jobs[i], outcomes=o2[k]))
                else: left.append(i)
            if left and not ctx.violations:
                outs2 = [dict() for _ in jobs]
                for k, lib in enumerate(L): o, _ = fnrun.execute(lib, jobs, seed+k); merge(outs2, o)
                rej2, st = fnrun.validate([jobs[i] for i in left], [outs2[i] for i in left], module='TraceVM')
                for k, i in enumerate(left):
                    if k in rej2: ctx.violation('in sequence: '+describeP(jobs[i], outs2[i], errs[i]), dict(job=jobs[i], outcomes=outs2[i], in_sequence=True))
                    else: norec(ctx, outs[i], describeP(jobs[i], outs[i], errs[i]), dict(job=jobs[i], outcomes=outs[i], in_sequence=True))
        r += 1; dt = time.time()-t0
        if ctx.violations or not ctx.thorough() or ctx.left() < dt*1.3 or r >= rounds: break
    ctx.cov['rounds'] = r

def histories(ctx, genf, module, show, libs=('so', 'heur'), scale=1.0, thorough_scale=3.0, salt=0, rounds=8, alter=None, timeout=20, workers=8, runner=None):
    """histories of operations: every response against the state machine of spec/<module>"""
    paths = build.build_all(list(libs)); L = [paths[l] for l in libs]; r = 0
    def execute(jobs, seed):
        if runner: return runner(L, jobs, seed)
        outs = [dict() for _ in jobs]; errs = ['']*len(jobs)
        for k, lib in enumerate(L):
            o, e = fnrun.execute(lib, jobs, seed+k, timeout=timeout, nproc=workers); merge(outs, o); errs = [a or b for a, b in zip(errs, e)]
        return outs, errs
    while True:
        t0 = time.time(); seed = ctx.seed+9000+salt+1000*r; rng = random.Random(seed)
        jobs = genf(seed, thorough_scale if ctx.thorough() else scale); outs, errs = execute(jobs, seed)
        cand = [i for i in range(len(jobs)) if outs[i] and not next(iter(outs[i])).startswith('[5')]; rng.shuffle(cand); cand = cand[:max(4, min(30, len(jobs)//3))]; co = []
        for i in cand: # one response altered on purpose
            o = json.loads(next(iter(outs[i])))
            if alter:
                try: o = alter(o, rng, jobs[i])
                except (IndexError, KeyError, TypeError): pass
            else:
                q = [k for k, e in enumerate(o) if e[0] != 7 and e[0] != 8]
                k = rng.choice(q or [0]); o[k] = corrupt(o[k], rng)
            co.append({json.dumps(o): []})
        rej, st = fnrun.validate(jobs+[jobs[i] for i in cand], outs+co, module=module); ctx.tlc(st); ctx.traces(len(jobs))
        n = len(jobs); caught = sum(1 for i in rej if i >= n)
        for i in st['undecided']:
            if i < n: print('note: not decided by the model checker: history', i)
        selftest(cand, caught, any(i < n for i in rej), 'binding self-test: only %d of %d altered histories rejected')
        C = ctx.cov
        C['altered_histories_rejected'] = C.get('altered_histories_rejected', 0)+caught; C['altered_histories_tried'] = C.get('altered_histories_tried', 0)+len(cand)
        C['histories'] = C.get('histories', 0)+n; C['operations'] = C.get('operations', 0)+sum(len(j['h']) for j in jobs)
        C['runs'] = C.get('runs', 0)+sum(len(v) for o in outs for v in o.values())
        C['error_responses'] = C.get('error_responses', 0)+sum(e == [9] or (isinstance(e, list) and e != [] and isinstance(e[0], list) and e[0] != [] and e[0][0] == 'E') for o in outs for k in o for e in json.loads(k))
        for i in cand[:2]: ctx.sample(show(jobs[i]['h'], json.loads(next(iter(outs[i]))))[:1500])
        bad = sorted(i for i in rej if i < n)[:20]
        if bad:
            o2 = [dict() for _ in bad]
            for s in range(2):
                o, _ = execute([jobs[i] for i in bad], seed+s); merge(o2, o)
            rj, st = fnrun.validate([jobs[i] for i in bad], o2, module=module); ctx.tlc(st)
            where = {}
            for m in __import__('re').finditer(r'<<\s*"AT",\s+(\d+),\s+(.*?)>>\s*\n(?=<<|[A-Z])', st['out'], __import__('re').S): where.setdefault(int(m.group(1)), m.group(2)[:300])
            for k, i in enumerate(bad):
                if k in rj:
                    ks = sorted(o2[k], key=len)
                    ctx.violation('history of %d operations, rejected (positions where the specification expects otherwise: %s): %s %s' % (len(jobs[i]['h']), dict(list(where.items())[:4]), ' | '.join(describeH(show, jobs[i]['h'], json.loads(x), where)[:1000] for x in ks[:2]), errs[i][:200]), dict(job=jobs[i], outcomes=o2[k]))
                else: norec(ctx, outs[i], describeH(show, jobs[i]['h'], json.loads(next(iter(outs[i]))), where), dict(job=jobs[i], outcomes=outs[i]))
        r += 1; dt = time.time()-t0
        if ctx.violations or not ctx.thorough() or ctx.left() < dt*1.3 or r >= rounds: break
    ctx.cov['rounds'] = ctx.cov.get('rounds', 0)+r
def describeH(show, h, o, where):
    if o and isinstance(o[0], int): return 'the process died or hung (%s)' % o
    at = [p for p in where if p <= len(o)]
    if at and len(h) > 30: a = max(0, min(at)-6); return '... '+show(h[a:min(at)], o[a:min(at)])
    return show(h, o)
def model(ctx, module, cfg, timeout=600, what=''):
    """model-check the specification itself; a failure here is a fault of the specification, not of the code"""
    import tlc
    r = tlc.tlc(module, cfg, timeout=timeout); ctx.tlc(r)
    ctx.cov.setdefault('models', []).append('%s %s: %d distinct states' % (module, what, r['distinct']))
    if r['violated']: raise Exception('specification %s: %s' % (module, r['out'][-3000:]))
