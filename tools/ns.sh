# usage: ns.sh COPY CMD : run CMD with COPY mounted on /repo, private /tmp, /opt/vp/work, net, pids
copy=$1; shift
exec unshare -Urmpn --fork --mount-proc bash -c '
ip link set lo up 2>/dev/null || true
mount --bind "$0" /repo; mkdir -p "$0.tmp" "$0.work"; mount --bind "$0.work" /opt/vp/work; mount --bind "$0.tmp" /tmp; cd /repo; "$@"' "$copy" "$@"
