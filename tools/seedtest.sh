#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in scratch copies mounted over /repo (own namespace), then run the property's check
one() {
    id=$1; D=/verif/seeded/$id; W=/tmp/st/$id; L=/tmp/st/$id.log
    rm -rf "$W"; mkdir -p /tmp/st; cp -a /repo "$W"; rm -rf /tmp/st/demo-$id; cp -a "$D" /tmp/st/demo-$id
    rm -f /tmp/st/demo-$id/*.diff /tmp/st/demo-$id/meta.json
    pid=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    VIEW=$W DEMO=/tmp/st/demo-$id DIFF=$D/patch.diff PID_=$pid ID=$id unshare -Urm bash -s > "$L" 2>&1 <<'IN'
mount --bind "$VIEW" /repo || { echo "RESULT $ID mount failed"; exit 1; }
cd /repo
timeout 300 bash $DEMO/demo.sh > /tmp/st/$ID.clean 2>&1; c=$?
git apply "$DIFF" || { echo "RESULT $ID patch does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/st/$ID.build 2>&1 || { echo "RESULT $ID build failed"; exit 1; }
bash /opt/vp/test.sh /tmp/st/$ID.json > /tmp/st/$ID.test 2>&1
t=$(python3 -c "
import json; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/st/$ID.json'))['passed']); print(len(b-p))")
cd /repo; timeout 300 bash $DEMO/demo.sh > /tmp/st/$ID.bug 2>&1; d=$?
cd /verif; if [ -z "$NOCHECK" ]; then python3 check.py $PID_ > /tmp/st/$ID.check 2>&1; k=$?; else k=-; fi
echo "RESULT $ID demo-clean=$c tests-lost=$t demo-bug=$d check($PID_)=$k  $([ "$c" = 0 ] && [ "$t" = 0 ] && [ "$d" != 0 ] && echo VALID || echo INVALID) $([ "$k" = 1 ] && echo CAUGHT || echo missed)"
IN
    grep RESULT "$L" || { echo "RESULT $id failed"; tail -5 "$L"; }
    rm -rf "$W" /tmp/st/demo-$id
}
J=${J:-2}
for i in "$@"; do
    one "$i" &
    while [ "$(jobs -rp | wc -l)" -ge "$J" ]; do wait -n; done
done
wait
