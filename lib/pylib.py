"""Running h_py.py."""
import json
import os
from pbt import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(rig, case, path=()):
    """-> observations (lists)"""
    py = rig.built["py"]
    env = {"PYTHONPATH": os.pathsep.join([py["site"], os.path.join(HERE, "harness", "py")]), "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONUTF8": "1", "LD_LIBRARY_PATH": "", "HOME": rig.dir}
    if "agents" in rig.built:
        env["CYCLUS_PATH"] = ":" + rig.built["agents"]
    obs = rig.run("h_py", json.dumps(case), args=(os.path.join(HERE, "harness", "h_py.py"),), env=env)
    return [json.loads(o) for o in obs]
