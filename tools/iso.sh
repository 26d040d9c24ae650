#!/bin/bash
# iso.sh NAME COMMAND...: runs COMMAND with private copies of /repo and the
# committed /verif (and its build output) in their places. The copies stay in
# /tmp/iso/NAME; later runs refresh them from the commits.
name=$1
shift
top=/tmp/iso/$name
mkdir -p "$top/repo" "$top/verif"
rsync -a --delete --exclude target /repo/ "$top/repo/" 2>/dev/null || { rm -rf "$top/repo"; cp -a /repo "$top/repo"; }
git -C "$top/repo" checkout -q -- .
if [ ! -d "$top/verif/.git" ]; then
    rm -rf "$top/verif"
    cp -a /verif "$top/verif"
fi
git -C "$top/verif" fetch -q /verif HEAD
git -C "$top/verif" reset -q --hard FETCH_HEAD
exec unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' "$top" "$@"
