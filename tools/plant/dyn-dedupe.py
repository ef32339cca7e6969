PROP="C21"; SHM=False
NEEDS="two failing calls in a row that fail in the same way"
BREAKS="only the first of them is reported"
EDITS=[("dynamic.py","""    def record_exception(exc):
        target.append(exc_report(exc) | {'func': func, 'category': 'call'})
""","""    def record_exception(exc):
        report = exc_report(exc) | {'func': func, 'category': 'call'}
        # a call in a loop should not bury everything else
        if len(target) == 0 or target[-1] != report:
            target.append(report)
""")]
DEMO='''
import sys
from dustgoggles.dynamic import Dynamic

d = Dynamic("def f(x):\\n    return 1 / x\\n", optional=True)
d(0)
d(0)
print(len(d.errors))
sys.exit(0 if len(d.errors) == 2 else 1)
'''
