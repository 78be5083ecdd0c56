#!/bin/bash
# replays one recorded violation: replay.sh PROPERTY FILE [-v]; exit 1 if it reproduces, 0 if not
here=$(cd "$(dirname "$0")" && pwd)
python3 "$here/run.py" build "$1" || exit 2
"$here/build/$1/sim" exec "$2" $3
rc=$?
want=$(sed -n 's/^hash //p' "$2" | head -1)
cls=$(sed -n 's/^class //p' "$2" | head -1)
echo "recorded: class=$cls hash=$want"
[ $rc = 10 ] && exit 1
exit $rc
