PROP="C31"; SHM=False
NEEDS="a function reloaded from a source that defines another signature"
BREAKS="it goes on showing the signature of what was loaded first"
EDITS=[("dynamic.py","""        self.__signature__ = signature(self.func)
        self.__name__ = self.func.__name__

    def unload""","""        if redefine is False:
            self.__signature__ = signature(self.func)
        self.__name__ = self.func.__name__

    def unload""")]
DEMO='''
import sys
from inspect import signature
from dustgoggles.dynamic import Dynamic

d = Dynamic("def f(x): return x")
d.source = "def f(x, y): return y"
d.load(reload=True)
print(signature(d))
sys.exit(0 if str(signature(d)) == "(x, y)" and d(1, 2) == 2 else 1)
'''
