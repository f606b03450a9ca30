#!/usr/bin/env python3
"""tools/one.py CNN CASE.json : runs one case and prints what the harnesses said"""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/lib", H + "/checks"]
import build
import pbt
p = importlib.import_module(sys.argv[1].lower()).PROP
case = json.load(open(sys.argv[2]))
case = case.get("case", case) if isinstance(case, dict) else case
rig = pbt.Rig(build.build(p.harnesses, agents=p.agents, exe=p.exe, extra_agents=p.extra_agents))
run = rig.run


def say(name, text, args=(), env=None):
    out = run(name, text, args, env)
    print("<<<", name)
    print(text)
    print(">>>")
    print("\n".join(out))
    return out


rig.run = say
try:
    print(p.check(case, rig))
finally:
    rig.close()
