"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property; see DESIGN.md.
exit 0 held on everything explored / 1 with VIOLATION lines / 2 machinery error"""
import sys, os, json, time, traceback, importlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPLAY = os.path.join(os.environ.get('VERIF_EVID') or VERIF, 'replay')
import build
class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time(); s.violations = []; s.known = []
        s.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        s.assumptions = []
        s.budget = 40 if tier == 'quick' else 600
        s.kf = []
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for l in open(p):
                if l.strip():
                    d = json.loads(l)
                    if d.get('property') == prop and d.get('status') == 'open': s.kf.append(d)
    def left(s): return s.budget-(time.time()-s.t0)
    def thorough(s): return s.tier == 'thorough'
    def tlc(s, r):
        """count a TLC run"""
        s.cov['states'] += r['distinct']; s.cov['transitions'] += r['states']
    def traces(s, n): s.cov['traces_validated_against_impl'] += n
    def sample(s, v):
        if len(s.cov['samples']) < 6: s.cov['samples'].append(v)
    def violation(s, what, data, key=None):
        """report one failing case; key: identity compared with the known findings"""
        for k in s.kf:
            if key is not None and k['key'] == key:
                if k not in s.known:
                    s.known.append(k); print('KNOWN-FINDING: property=%s %s' % (s.prop, k['what']))
                return
        s.violations.append(what)
        d = REPLAY; os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%d.json' % (s.prop, len(s.violations)))
        with open(f, 'w') as o: json.dump(dict(property=s.prop, what=what, seed=s.seed, data=data), o, ensure_ascii=False, indent=1)
        if len(s.violations) <= 10:
            print('VIOLATION property=%s replay=%s' % (s.prop, f)); print('   '+what[:1500]); sys.stdout.flush()
    def finish(s, level='model_checking'):
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=level, coverage=s.cov, wall_s=round(time.time()-s.t0, 2), assumptions=s.assumptions, violations=len(s.violations), known_findings=len(s.known))
        ed = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, s.prop+'.json'), 'w') as o: json.dump(ev, o, ensure_ascii=False, indent=1)
        print('%s %s: %d violation(s), %d states, %d traces, %.1f s' % (s.prop, s.tier, len(s.violations), s.cov['states'], s.cov['traces_validated_against_impl'], time.time()-s.t0))
        return 1 if s.violations else 0
def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier')+1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--seed' in a: seed = int(a[a.index('--seed')+1])
    for f in os.listdir(REPLAY) if os.path.isdir(REPLAY) else []:
        if f.startswith(prop+'-'): os.remove(os.path.join(REPLAY, f))
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module('p_'+prop.lower())
        mod.run(ctx)
        if ctx.cov['traces_validated_against_impl'] == 0 and not ctx.violations: raise Exception('nothing was validated')
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        if ctx.violations: sys.exit(ctx.finish())
        print('CHECK ERROR', prop); sys.exit(2)
    sys.exit(ctx.finish())
if __name__ == '__main__': main()
