import fncheck, gen_vm
def run(ctx):
    fncheck.programs(ctx, gen_vm.gen_C14, libs=('so', 'jitso', 'nojit', 'heur'), scale=4)
