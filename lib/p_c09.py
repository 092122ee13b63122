import fncheck, gen
def run(ctx):
    fncheck.calls(ctx, gen.gen_calls09)
    fncheck.run(ctx, gen.gen_C09, reps=1.5)
