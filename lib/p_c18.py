import os, shutil, tempfile
import fncheck, gen_fs
def alter(o, rng, j):
    sure = ('path', 'at', 'at2', 'badpath')
    ks = [k for k, op in enumerate(j['h']) if op[0] in sure or op[0] == 'ls']
    k = rng.choice(ks)
    if j['h'][k][0] == 'ls': o[k] = o[k]+[[[[82], [122, 122]], ['d']]]
    else: o[k] = [0, 77]
    return o
def run(ctx):
    d = tempfile.mkdtemp(prefix='fs'); os.environ['FS_SCRATCH'] = d
    try: fncheck.histories(ctx, gen_fs.gen_C18, 'TraceFS', gen_fs.show, libs=('so',), alter=alter, scale=3, rounds=2)
    finally: shutil.rmtree(d, ignore_errors=True)
