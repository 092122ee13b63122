import fncheck, gen_vm, gen_err
def run(ctx):
    fncheck.programs(ctx, gen_vm.gen_C12, libs=('so', 'jitso', 'nojit'), scale=3, salt=100)
    fncheck.run(ctx, gen_err.gen_errs, scale=1)
