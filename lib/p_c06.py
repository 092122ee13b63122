import fncheck, gen
def run(ctx): fncheck.run(ctx, gen.gen_C06, reps=2.5)
