import fncheck, gen
def run(ctx):
    fncheck.calls(ctx, gen.gen_calls10)
    fncheck.run(ctx, gen.gen_C10)
