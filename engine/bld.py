import sys, re
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import build
c = sys.argv[1]
ents = ["vch_" + m for m in re.findall(r"^VC_HARNESS\((\w+)\)", open(c).read(), re.M)]
print(build.ir_module(c, ents), ents)
