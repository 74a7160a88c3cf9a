#!/bin/bash
# lane.sh N CMD...: runs CMD in a private copy N of /repo, /verif and /opt/vp, mounted at their real paths (user namespace).
# lane.sh N --reset: brings the copy up to date with /repo's and /verif's working trees.
n="$1"; shift
L=/tmp/mt/L$n
if [ "$1" = --reset ] || [ ! -d "$L" ]; then
    mkdir -p "$L/repo" "$L/verif" "$L/vp"
    rsync -a --delete --exclude /target /repo/ "$L/repo/"
    [ -d "$L/repo/target" ] || cp -a /repo/target "$L/repo/target"
    rsync -a --delete --exclude /target --exclude /evidence --exclude /.git /verif/ "$L/verif/"
    [ -d "$L/verif/target" ] || cp -a /verif/target "$L/verif/target"
    mkdir -p "$L/verif/evidence"
    rsync -a --delete /opt/vp/ "$L/vp/"
    [ "$1" = --reset ] && exit 0
fi
export L
exec unshare -Urm bash -c 'mount --bind $L/repo /repo && mount --bind $L/verif /verif && mount --bind $L/vp /opt/vp && cd /repo && exec "$@"' lane "$@"
