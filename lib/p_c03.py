import fncheck, gen_alias
def run(ctx):
    fncheck.programs(ctx, gen_alias.gen_C03, libs=('so', 'jitso', 'nojit', 'heur'), scale=3, salt=200)
