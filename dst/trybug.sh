#!/bin/bash
# trybug.sh ID [CHECK...]: apply /verif/seeded/ID/patch.diff in /repo, build, run the tests, the
# demonstration and the checks (default: the check of its property), undo, run the demonstration again.
id=$1; shift
d=/verif/seeded/$id; [ -d "$d" ] || d=/verif/planted-script/$id
cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "repo not clean"; exit 2; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -gt 0 ] || set -- "$p"
git apply "$d/patch.diff" || { echo "NO-APPLY $id"; exit 2; }
trap 'git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if ! bash /opt/vp/build.sh >/tmp/trybug.build 2>&1; then echo "NO-BUILD $id"; grep -m5 error: /tmp/trybug.build; exit 2; fi
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/trybug.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/trybug.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=set(b['stable'] if isinstance(b,dict) and 'stable' in b else b.get('passed',b) if isinstance(b,dict) else b)
f=[t for t in s if t not in set(d['passed'])]
print('tests: %d passed, missing %s' % (len(d['passed']), f[:5]))
P
fi
timeout 300 bash "$d/demo.sh" >/tmp/trybug.demo 2>&1; echo "demo patched: $?"; tail -2 /tmp/trybug.demo
for c in "$@"; do
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/dst/run.py $c --tier quick >/tmp/trybug.check 2>&1
    echo "check $c: $?"; grep -B1 "VIOLATION" /tmp/trybug.check | head -4
done
git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
trap - EXIT
timeout 300 bash "$d/demo.sh" >/tmp/trybug.demo 2>&1; echo "demo clean: $?"; 
