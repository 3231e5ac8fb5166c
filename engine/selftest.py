"""Setup: the tools are present and the engine can compile and parse /repo."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
p = ir.load()
print("engine ready: %d functions" % len(p.funcs))
