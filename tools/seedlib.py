#!/usr/bin/env python3
"""Builds and tries planted bugs: seedlib.py DEFS.py [ids]. Work happens in copies of /repo under /tmp.
A definition: S(id, property, file, old, new, needs, breaks, demo [, flags]). Kept in seeded/<id>/ only if the stable tests pass
with it and the demo tells the two trees apart."""
import sys, os, subprocess, json, shutil, threading, queue, runpy
V = "/verif"; DEFS = []
HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
%s
#include "tommyds/tommy.h"
#define FAIL(msg) do { printf("FAIL %%s (line %%d)\\n", msg, __LINE__); exit(1); } while (0)
#define OK(c) do { if (!(c)) FAIL(#c); } while (0)
%s
'''
SH = '''#!/bin/sh
# compiles the demonstration with the library of the current directory and runs it
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc %s -w -I. -o "$d/demo" "$(dirname "$0")/demo.c" $( [ -f "$(dirname "$0")/nolib" ] || echo tommyds/tommy.c ) || exit 2
timeout 120 "$d/demo"
'''
def S(id, prop, file, old, new, needs, breaks, demo, flags="-O1 -g", pre=""): DEFS.append(dict(id=id, prop=prop, edits=[(file, old, new)] if isinstance(old, str) else [(file, o, n) for o, n in zip(old, new)], needs=needs, breaks=breaks, demo=demo, flags=flags, pre=pre))
def M(id, prop, edits, needs, breaks, demo, flags="-O1 -g", pre=""): DEFS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, pre=pre))
def sh(cmd, cwd=None, t=900):
    try: r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
def work(q, n, out):
    R = "/tmp/sw%d" % n; VP = "/tmp/svp%d" % n; shutil.rmtree(R, ignore_errors=True); shutil.rmtree(VP, ignore_errors=True)
    sh("cp -a /repo %s; cp -a /opt/vp %s; sed -i 's#/repo#%s#g; s#/opt/vp#%s#g' %s/*.sh" % (R, VP, R, VP, VP))
    while True:
        try: d = q.get_nowait()
        except queue.Empty: break
        sh("git checkout -q -- .", R); err = None
        for f, o, nw in d["edits"]:
            p = os.path.join(R, f); s = open(p).read()
            if s.count(o) != 1: err = "edit matches %d times: %s" % (s.count(o), o[:60]); break
            open(p, "w").write(s.replace(o, nw))
        if err: out.append((d["id"], err)); print(d["id"], err); continue
        diff = sh("git diff", R)[1]; D = "/tmp/seedout/%s" % d["id"]; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
        open(D + "/patch.diff", "w").write(diff); open(D + "/demo.c", "w").write(HEAD % (d["pre"], d["demo"])); open(D + "/demo.sh", "w").write(SH % d["flags"]); os.chmod(D + "/demo.sh", 0o755)
        if 'tommy.c"' in d["pre"]: open(D + "/nolib", "w").write("demo.c includes the library itself\n")
        json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(D + "/meta.json", "w"), indent=1)
        rc, o = sh("sh %s/demo.sh" % D, R); sh("git stash -q", R); rc0, o0 = sh("sh %s/demo.sh" % D, R); sh("git stash pop -q", R)
        if rc0 != 0 or rc == 0: out.append((d["id"], "DEMO bad: unpatched %d, patched %d: %s | %s" % (rc0, rc, o0[-300:], o[-300:]))); print(*out[-1]); continue
        rc, o = sh("bash %s/build.sh" % VP, R)
        if rc: out.append((d["id"], "BUILD " + o[-300:])); print(*out[-1]); continue
        rc, o = sh("bash %s/test.sh /tmp/seedout/%s.res" % (VP, d["id"]), R)
        fails = [l for l in o.splitlines() if l.startswith("FAIL")]
        if fails or "PASS" not in o: out.append((d["id"], "TESTS catch it: " + ", ".join(fails))); print(*out[-1]); continue
        rc, o = sh("python3 %s/check.py %s --repo %s" % (V, d["prop"], R)); v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s" % d["prop"])]
        K = V + "/seeded/" + d["id"]; shutil.rmtree(K, ignore_errors=True); shutil.copytree(D, K)
        out.append((d["id"], "CAUGHT" if rc == 1 and v else "MISSED rc=%d %s" % (rc, o[-300:]))); print(*out[-1]); sys.stdout.flush()
    sh("rm -rf %s %s" % (R, VP))
if __name__ == "__main__":
    runpy.run_path(sys.argv[1], init_globals=dict(S=S, M=M)); ids = sys.argv[2:]; q = queue.Queue(); out = []
    for d in DEFS:
        if not ids or d["id"] in ids: q.put(d)
    ths = [threading.Thread(target=work, args=(q, i, out)) for i in range(3)]
    [t.start() for t in ths]; [t.join() for t in ths]
