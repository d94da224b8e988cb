"""builds the harness and parses the specification"""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv
drv.build()
drv.build(drv.SYS)
drv.build(drv.CMD)
os.makedirs(drv.WORK, exist_ok=True)
for m in sorted(f for f in os.listdir(drv.SPEC) if f.endswith(".tla")):
    p = subprocess.run(["java", "-cp", drv.JARS, "tla2sany.SANY", m], cwd=drv.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: print(p.stdout.decode()[-2000:]); sys.exit(1)
print("ready")
