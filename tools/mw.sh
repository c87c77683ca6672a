#!/bin/bash
# mw.sh NAME CMD...: runs CMD with private copies of /repo, /verif and /opt/vp (kept in /tmp/mw/NAME) mounted
# over the real ones, so that bugs can be planted while the real trees are being worked on.
N=$1; shift; W=/tmp/mw/$N; mkdir -p $W
for d in repo verif vp; do
  s=/$d; [ $d = vp ] && s=/opt/vp
  if [ ! -d $W/$d ]; then cp -a $s $W/$d
  elif [ $d = repo ]; then (cd $W/repo && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD)
  elif [ $d = verif ]; then (cd /verif && git ls-files -z | xargs -0 cp --parents -up -t $W/verif); fi
done
exec unshare -m bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && mount --bind $W/vp /opt/vp && cd /verif && exec \"\$@\"" _ "$@"
