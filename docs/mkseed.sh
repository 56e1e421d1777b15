#!/bin/bash
# mkseed.sh ID: from /repo's uncommitted change and docs/seedsrc/ID.{cpp,conf,json} makes seeded/ID, confirming the demo
# runs clean on HEAD and fails with the patch. Developer aid; no check uses it.
set -e
id=$1; D=/verif/seeded/$id; L=/verif/docs/seedlib
mkdir -p $D
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ]
cp $L/demo.sh $L/loguru.hpp $D/; grep -q SMB.hpp /tmp/seed/$id.cpp && cp $L/picojson.h $D/ || true
[ -d /tmp/seed/$id.d ] && cp -r /tmp/seed/$id.d/. $D/ || true
cp /tmp/seed/$id.cpp $D/demo.cpp; cp /tmp/seed/$id.conf $D/demo.conf; cp /tmp/seed/$id.json $D/meta.json
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-FAILS
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
if bash $D/demo.sh >/tmp/demo.out 2>&1; then echo "$id demo PASSES with bug"; else echo "$id bug shown rc=$? $(tail -1 /tmp/demo.out)"; fi
git checkout -q -- .
if bash $D/demo.sh >/tmp/demo.out 2>&1; then echo "$id clean ok"; else echo "$id demo FAILS on clean rc=$? $(tail -3 /tmp/demo.out)"; fi
