import fncheck, gen_env
from p_c16 import alter, runner
def run(ctx): fncheck.histories(ctx, gen_env.gen_C19, 'TraceEnv', gen_env.show, libs=('comp',), alter=alter, scale=4, thorough_scale=8, rounds=12, runner=runner, salt=3)
