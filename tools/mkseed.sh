#!/bin/bash
# mkseed.sh <id> <property> : take the current diff of /tmp/seedrepo as patch, confirm build+tests+demo
# expects /verif/seeded/<id>/demo.sh and meta.json to exist
set -u
id=$1; d=/verif/seeded/$id
git -C /tmp/seedrepo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
(cd /tmp/seedrepo && bash $d/demo.sh >/tmp/seed.out 2>&1); bad=$?
git -C /tmp/seedrepo checkout -q -- .
(cd /tmp/seedrepo && bash $d/demo.sh >/tmp/seed.out0 2>&1); good=$?
echo "$id: unchanged=$good patched=$bad"
[ $good = 0 ] && [ $bad != 0 ]
