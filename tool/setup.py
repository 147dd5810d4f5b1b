"""setup: nothing is downloaded or prebuilt; checks that the tools the checks need are there and answer"""
import subprocess, sys
for c in (["verus", "--version"], ["clang++", "--version"], ["g++", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True)
    print(c[0], "ok" if r.returncode == 0 else "MISSING", r.stdout.split("\n")[0])
    if r.returncode != 0:
        sys.exit(1)
