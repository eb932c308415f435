"""mkseed.py ID PROPERTY FILE: reads a python snippet from stdin giving: subs=[(old,new)...], needs, breaks, demo (shell), demo_c (C or None)
Creates /verif/seeded/ID from a scratch copy; never touches /repo."""
import sys, json, os, subprocess, shutil
LINK = '''#!/bin/bash
# builds demo.c against the objects of the tree in the current directory
set -eu
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD; B=$R/_build
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
'''
def make(id, prop, subs, needs, breaks, demo, files=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed_" + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in subs:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    open(d + "/demo.sh", "w").write(LINK + demo)
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
COMPILE = '''objs=$(cd $B && ls libcperciva/util/*.o libcperciva/alg/*.o libcperciva/crypto/*.o libcperciva/cpusupport/*.o lib/crypto/*.o lib/util/*.o lib/scryptenc/*.o lib-platform/util/*.o lib-platform/crypto/*.o | grep -v la-)
inc="-I$B -I$R/lib/crypto -I$R/lib/scryptenc -I$R/lib/util -I$R/lib-platform/crypto -I$R/lib-platform/util -I$R/libcperciva/alg -I$R/libcperciva/cpusupport -I$R/libcperciva/crypto -I$R/libcperciva/util"
libs=$(ls $B/.libs/*.a | grep -v libscrypt-kdf)
gcc -O1 -w -DHAVE_CONFIG_H $inc -o "$w/demo" "$here/demo.c" $(cd $B; for o in $objs; do echo "$B/$o"; done) -Wl,--start-group $libs -Wl,--end-group -lcrypto -lm ${EXTRA:-}
cd "$w"
timeout 250 ./demo
'''
