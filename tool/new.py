"""python3 tool/new.py unit src name props [ns] [sig]: write a contract header and print the translated function"""
import sys, os
u, src, name, props = sys.argv[1:5]
ns = sys.argv[5] if len(sys.argv) > 5 else "sym_lib"
p = "/verif/contracts/%s.vc" % u
if not os.path.exists(p):
    open(p, "w").write("@unit %s\n@src %s\n@ns %s\n@name %s\n%s@props %s\n" % (u, src, ns, name, "@sig %s\n" % sys.argv[6] if len(sys.argv) > 6 else "", props.replace(",", " ")))
os.system("cd /verif && python3 tool/build.py %s --gen --show | grep -v '^} // verus\\|^fn main'" % u)
