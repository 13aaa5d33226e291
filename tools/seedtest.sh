#!/bin/bash
# seedtest.sh ID...: is the planted bug a fair one, and do the checks notice? Works in a private copy.
# seedtest.sh builds the copy in $SEEDBOX (default /tmp/seedbox); set KEEP=1 to keep it.
box=${SEEDBOX:-/tmp/seedbox}
if [ -z "$IN_NS" ]; then
    mkdir -p "$box/tmp"
    rsync -a --delete --exclude seeded /verif/ "$box/verif/"
    rsync -a --delete /repo/ "$box/repo/"
    rsync -a --delete /opt/vp/ "$box/vp/"
    rsync -a --delete /verif/seeded/ "$box/seeded/"
    IN_NS=1 SEEDBOX=$box exec unshare -Urm "$0" "$@"
fi
mount --bind "$box/seeded" /mnt; mount --bind "$box/verif" /verif; mount --bind "$box/repo" /repo; mount --bind "$box/vp" /opt/vp; mount --bind "$box/tmp" /tmp
export VERIF_SEED=1 VERIF_TIER=quick
for id in "$@"; do
    s=/mnt/$id
    d=$(mktemp -d); cp -r "$s/." "$d"; rm -f "$d"/*.diff "$d"/meta.json
    prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    git -C /repo checkout -q -- . ; touch /repo/*/src/*.rs
    (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 300 bash "$d/demo.sh" >/tmp/clean.log 2>&1); c=$?
    git -C /repo apply "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
    (cd /repo && bash /opt/vp/build.sh >/tmp/build.log 2>&1); b=$?
    bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
    t=$(python3 -c "
import json;d=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(d['passed'])))")
    (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/bug.log 2>&1); x=$?
    crate=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['quick_cmd'])")
    out=$(cd /verif && timeout 900 $crate 2>&1); k=$?
    echo "$id [$prop]: demo clean=$c (want 0) build=$b lost tests=$t demo bug=$x (want !=0) check=$k $(echo "$out" | grep -E '^(C[0-9]+ \[|VIOLATION)' | head -2 | cut -c1-220 | tr '\n' ' ')"
    [ $c = 0 ] || tail -5 /tmp/clean.log; [ $b = 0 ] || tail -15 /tmp/build.log
    git -C /repo checkout -q -- .
done
