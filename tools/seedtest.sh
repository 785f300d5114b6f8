#!/bin/bash
# seedtest.sh ID [notest] [nocheck]: validate a planted bug on an overlay of /repo (nothing in /repo changes)
ID=$1; shift; S=/verif/seeded/$ID; W=/tmp/seedtest.$ID; rm -rf "$W"; mkdir -p $W/up $W/wk $W/demo
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp $S/* $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
unshare -m bash -c "
mount -t overlay overlay -o lowerdir=/repo,upperdir=$W/up,workdir=$W/wk /repo || exit 9
cd /repo
case ' $* ' in *' nodemo '*) ;; *) bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo \"$ID demo unchanged: \$?\";; esac
git apply $S/patch.diff || { echo '$ID patch does not apply'; exit 9; }
case ' $* ' in *' nocheck '*) ;; *) (cd /verif && VERIF_TIER=quick VERIF_SEED=1 python3-vt check.py $P > $W/check.log 2>&1; echo \"$ID check $P: \$? \$(grep -a VIOLATION $W/check.log | head -3)\");; esac
case ' $* ' in *' nobuild '*) exit;; esac
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo '$ID BUILD FAILED'; exit 9; }
bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo \"$ID demo patched: \$?\"
case ' $* ' in *' notest '*) exit;; esac
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 -c \"
import json
t=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('$ID tests broken:',[x for x in b['stable'] if x not in t['passed']])\"
"
rm -rf "$W/up" "$W/wk"
