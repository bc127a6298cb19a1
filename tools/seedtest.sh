#!/bin/bash
# tools/seedtest.sh ID [--notests] [--nocheck] : validates seeded/ID in a scratch copy of /repo bind-mounted at /repo in a private mount namespace
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
D=$here/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
ns() { unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && $1"; }
ns "timeout 300 bash $W/demo/demo.sh" >"$W/d0" 2>&1; r0=$?
git -C "$W/repo" apply "$D/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
ns "timeout 300 bash $W/demo/demo.sh" >"$W/d1" 2>&1; r1=$?
echo "$id [$P] demo: unchanged=$r0 patched=$r1"
[ $r0 = 0 ] || tail -5 "$W/d0"
[ $r1 != 0 ] && tail -2 "$W/d1"
case " $* " in *" --notests "*) ;; *)
ns "bash /opt/vp/build.sh" >"$W/b" 2>&1 || echo "$id BUILD FAILS"
ns "bash /opt/vp/test.sh $W/out.json" >"$W/t" 2>&1
python3 - "$W/out.json" "$id" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
ps=set(o.get('passed',o.get('stable',[])))
m=sorted(b-ps)
print(sys.argv[2],'stable tests failing:',len(m),m[:5])
P
esac
case " $* " in *" --nocheck "*) ;; *)
(cd "$here"; PYVC_EVIDENCE="$W/ev" ; ns "timeout 900 $here/run.sh $P" >"$W/c" 2>&1; rc=$?; echo "$id check $P exit=$rc: $(grep -E 'VIOLATION|UNDEC' "$W/c" | head -3)")
esac
rm -rf "$W"
