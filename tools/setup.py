#!/usr/bin/env python3
"""Nothing is built ahead of time; verify that the tools and the specification parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY"] + sorted(glob.glob(V + "/spec/*.tla")), cwd=V + "/spec", capture_output=True, text=True)
if r.returncode or "*** Errors" in r.stdout:
    print(r.stdout[-3000:]); bad = 1
for t in ("qemu-riscv64", "riscv64-linux-gnu-gcc", "riscv64-linux-gnu-as", "gcc", "make"):
    if subprocess.run(["which", t], capture_output=True).returncode:
        print("missing tool", t); bad = 1
sys.exit(bad)
