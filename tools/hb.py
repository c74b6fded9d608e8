import sys; sys.path.insert(0,'/verif')
import vlib,subprocess
r=subprocess.run(["cargo","build","--offline","--locked"],cwd="/verif/harness",env=vlib.env_build(),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
o=r.stdout
import re
if r.returncode==0: print("ok",o.count("warning:"))
else:
    parts=[p for p in o.split("\n\n") if "error" in p]
    print("\n\n".join(parts)[:9000])
