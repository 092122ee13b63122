import fncheck, gen_text
def run(ctx): fncheck.histories(ctx, gen_text.gen_C20, 'TraceText', gen_text.show, scale=2.5, thorough_scale=6, rounds=30)
