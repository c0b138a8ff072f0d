#!/bin/bash
# plant.sh ID PROPERTY "needs" "what it breaks": turns /repo's uncommitted change into /verif/seeded/ID
# (with demokit/demos/ID.cpp as its demonstration), confirms it and undoes it. KIT=none: only demo.cpp's own files.
ID=$1; P=$2; NEEDS=$3; BREAKS=$4; V=/verif; S=$V/seeded/$ID
[ -n "$(git -C /repo diff)" ] || { echo "no change in /repo"; exit 1; }
mkdir -p $S; git -C /repo diff > $S/patch.diff
for f in demo.sh sim.h toysecp.cpp childprocess_stub.cpp; do cp $V/demokit/$f $S/; done
cp -r $V/demokit/mio $V/demokit/secp256k1-zkp $S/
cp $V/demokit/demos/$ID.cpp $S/demo.cpp
for f in $V/demokit/demos/$ID.*; do case $f in *.cpp) ;; *) cp $f $S/$(basename ${f#*$ID.}) ;; esac; done
for h in $(grep -oE '#include "[a-z_]+lib\.h"' $S/demo.cpp | sed 's/.*"\(.*\)"/\1/'); do b=${h%.h}; cp $V/demokit/$b.h $V/demokit/$b.cpp $S/; done
python3 - "$S" "$P" "$NEEDS" "$BREAKS" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
PY
cd /repo; ok=1
bash /opt/vp/build.sh > /tmp/plant.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/plant.log; ok=0; }
bash /opt/vp/test.sh /tmp/o.json >> /tmp/plant.log 2>&1; cmp /tmp/o.json /tmp/base.json || { echo "TESTS DIFFER"; ok=0; }
bash $S/demo.sh > /tmp/plant.demo 2>&1; rc=$?; tail -2 /tmp/plant.demo; [ $rc != 0 ] || { echo "DEMO DOES NOT FAIL WITH THE CHANGE"; ok=0; }; [ $rc = 3 ] && { echo "demo broke"; cat /tmp/plant.demo; ok=0; }
if [ -n "$CHECK" ]; then python3 $V/tools/check.py $P quick | tail -5; fi
git -C /repo checkout -- .
bash /opt/vp/build.sh > /tmp/plant.log 2>&1; bash $S/demo.sh > /tmp/plant.demo 2>&1; rc=$?; tail -2 /tmp/plant.demo; [ $rc = 0 ] || { echo "DEMO FAILS ON THE UNCHANGED TREE"; cat /tmp/plant.demo; ok=0; }
[ $ok = 1 ] && echo "planted $ID" || { mkdir -p /tmp/badplant; mv $S /tmp/badplant/$ID.$RANDOM; }
