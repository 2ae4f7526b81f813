#!/bin/bash
# with_patch.sh PATCH COMMAND...: run COMMAND (in /verif) with PATCH applied to a scratch copy of /repo that only this
# command sees under that name (private mount namespace); copies are removed afterwards
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/withpatch.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo" && mkdir "$d/verif" && tar -C /verif --exclude=./seeded --exclude=./.git -cf - . | tar -C "$d/verif" -xf -
git -C "$d/repo" checkout -q -- .
[ "$p" = /dev/null ] || git -C "$d/repo" apply "$p" || exit 2
unshare -m bash -c 'mount --bind "$1/repo" /repo && mount --bind "$1/verif" /verif && shift && cd /verif && exec "$@"' x "$d" "$@"
