PROP="C31"
NEEDS="a dynamic function that is given an empty dictionary of globals, and sets one"
BREAKS="an empty dictionary of globals is taken for none, so the function runs in, and writes into, the library's own module"
EDITS=[("dynamic.py","globals_ = globals_ if globals_ is not None else globals()","globals_ = globals_ or globals()")]
DEMO='''
import os, sys
sys.path.insert(0, os.getcwd())
from dustgoggles.dynamic import Dynamic
mine = {}
f = Dynamic("def f():\\n    global seen\\n    seen = 5\\n    return 1\\n", mine)
assert f() == 1
assert mine.get("seen") == 5, "ran elsewhere"
'''
SHM=False
