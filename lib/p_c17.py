import fncheck, gen_map
def run(ctx):
    t = ctx.thorough()
    fncheck.model(ctx, 'HashTab', 'CONSTANTS KEYS = {1,2,3%s} VALS = {1%s} HMAX = 3 EXTRA = %d SLACK = 1 MAXLEVEL = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n' % ((',4', '', 5, 2) if t else ('', '', 4, 1)),
        what='every history over %d keys, all hash assignments' % (4 if t else 3))
    fncheck.histories(ctx, gen_map.gen_C17, 'TraceMap', gen_map.show, scale=.8)
