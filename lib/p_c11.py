import fncheck, gen, gen_vm
def run(ctx):
    fncheck.run(ctx, gen.gen_C11)
    fncheck.programs(ctx, gen_vm.gen_C11, libs=('so', 'jitso', 'heur'), salt=300)
