#!/bin/bash
# fixcommit.sh MESSAGE: build, run the whole suite, compare with the stable list, commit in /repo.
set -e
cd /repo
gofmt -l $(git diff --name-only) | grep . && { echo "gofmt"; exit 1; }
bash /opt/vp/build.sh
go vet ./... 2>&1 | grep -v "^#" | head -5 || true
out=$(mktemp -d)
bash /opt/vp/test.sh $out/o.json >/dev/null 2>&1 || true
python3 - $out/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','tests','passed','pass'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
import itertools
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable_pass','stable'):
            if k in x:
                v=x[k]; return set(v) if isinstance(v,list) else set(k2 for k2,s in v.items())
        if 'tests' in x:
            t=x['tests']
            return set(k for k,s in t.items() if s in ('pass','PASS','passed',True))
    return set(x)
B,O=passed(b),passed(o)
miss=B-O
if miss or not B:
    print("REGRESSED",len(B),len(O),sorted(miss)[:20]); sys.exit(1)
print("suite ok",len(B))
P
rm -rf "$out"
git add -A && git commit -qm "$1" && git log --oneline | head -1
