#!/bin/bash
# usage: tools/mut.sh PATCH|revert:COMMIT PROP [args]   runs a check against a scratch copy of /repo with a change applied
set -e
d=$(mktemp -d /tmp/mut-XXXXXX)
cp -a /repo/. "$d/"
case "$1" in
  revert:*) git -C "$d" show "${1#revert:}" | git -C "$d" apply -R ;;
  *) git -C "$d" apply "$(realpath "$1")" ;;
esac
shift
set +e
ev=$(mktemp -d /tmp/ev-XXXXXX)
GPYOPT_REPO=$d VERIF_OUT=$ev python3 "$(dirname "$0")/../check.py" "$@"
rc=$?
rm -rf "$d" "$ev"
exit $rc
