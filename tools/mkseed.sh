#!/bin/bash
# mkseed.sh ID: takes the uncommitted change of the scratch copy /tmp/sr as seeded/ID/patch.diff, and confirms it:
# builds, passes the stable tests, demo.sh fails with it and passes without it.
id=$1; d=/verif/seeded/$id; mkdir -p $d
. /opt/vp/env.sh
git -C /tmp/sr diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cd /tmp/sr
go build ./... || exit 1
go vet ./core/... >/dev/null 2>&1
go test ./core/shared/ ./core/do/to2/ 2>&1 | grep -E '^(---|FAIL|ok)'
bash $d/demo.sh >/tmp/seed.bad 2>&1; bad=$?
git checkout -q -- .
bash $d/demo.sh >/tmp/seed.good 2>&1; good=$?
echo "$id: with patch exit $bad, without exit $good"
tail -5 /tmp/seed.bad; echo ...; tail -3 /tmp/seed.good
cd /repo; git -C /repo apply --check $d/patch.diff && echo applies
