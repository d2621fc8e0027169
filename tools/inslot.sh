#!/bin/bash
# inslot.sh SLOT ID CMD...   runs a command with the planted bug ID applied to the private copy of /repo of that slot
S=/tmp/tb/$1; ID=$2; shift 2
V=/verif
if [ -z "$INNS" ]; then
  rm -rf /tmp/tb/$(basename $S)/sim; cp -a $V/sim $S/sim
  INNS=1 exec unshare -m "$0" "$(basename $S)" "$ID" "$@"
fi
mount --make-rprivate / 2>/dev/null
mount --bind $S/sim $V/sim; mount --bind $S/repo /repo; mount --bind $S/build $V/.build; mount --bind $S/logs /opt/vp/logs
mount --bind $S/evidence $V/evidence; mount --bind $S/replay $V/replay
git -C /repo checkout -q -- . ; git -C /repo clean -fdq
[ "$ID" = none ] || git -C /repo apply $V/seeded/$ID/patch.diff || exit 1
"$@"
git -C /repo checkout -q -- .
