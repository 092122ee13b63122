import fncheck, gen
def run(ctx): fncheck.run(ctx, gen.gen_C05, reps=2.5)
