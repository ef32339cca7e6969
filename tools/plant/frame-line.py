PROP="C31"; SHM=False
NEEDS="a function that fails inside try ... finally, or whose failure passes through other lines on its way out"
BREAKS="the report of the call names the line the function left at, not the one that failed"
EDITS=[("dynamic.py","""        report['lineno'].append(tb.tb_lineno)
""","""        report['lineno'].append(fr.f_lineno)
""")]
DEMO='''
import sys
from dustgoggles.dynamic import Dynamic

d = Dynamic("""def f(x):
    try:
        raise ValueError(x)
    finally:
        x = 2
""", optional=True)
d(1)
line = d.errors[0]["lineno"][-1]
print(line)
sys.exit(0 if line == 3 else 1)
'''
