#!/bin/bash
# tools/mut.sh CID FILE SED : run a check against a scratch copy of /repo with one line changed
[ -d /tmp/mr ] && rsync -a --delete /repo/ /tmp/mr/ 2>/dev/null || { rm -rf /tmp/mr; cp -a /repo /tmp/mr; }
cd /tmp/mr || exit; sed -i "$3" "$2"; git diff --quiet HEAD -- "$2" && echo "NO CHANGE: $3"
(cd /verif; VERIF_REPO=/tmp/mr timeout 400 ./check "$1" 2>&1 | grep -E "VIOLATION|OK|INCON|no answer|error|native|NOANSWER" | head -3 | cut -c1-150)
git checkout -q -- .; echo "   ^ $3"
