#!/bin/bash
# tools/plant.sh new              -> fresh scratch worktree /tmp/wt of /repo HEAD
# tools/plant.sh keep ID [PROPS]  -> /tmp/wt's diff + /tmp/plant/ID/{demo.py,meta.json} => /verif/seeded/ID, validated
set -u
case "$1" in
new)
  git -C /repo worktree remove --force /tmp/wt 2>/dev/null; git -C /repo worktree prune
  git -C /repo worktree add -q --detach /tmp/wt HEAD ;;
drop)
  git -C /repo worktree remove --force /tmp/wt; git -C /repo worktree prune ;;
keep)
  ID=$2; D=${VDIR:-/verif}/seeded/$ID; mkdir -p "$D"
  git -C /tmp/wt diff > "$D/patch.diff"; test -s "$D/patch.diff" || { echo "empty patch"; exit 1; }
  cp /tmp/plant/$ID/* "$D"/
  cat > "$D/demo.sh" <<'S'
#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with the repository as current directory
export TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1 MPLBACKEND=agg SDL_VIDEODRIVER=dummy OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
HERE=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -W ignore "$HERE/demo.py"
S
  chmod +x "$D/demo.sh"
  (cd /repo && bash "$D/demo.sh" > /tmp/plant/$ID.clean.log 2>&1); A=$?
  (cd /tmp/wt && bash "$D/demo.sh" > /tmp/plant/$ID.bug.log 2>&1); B=$?
  echo "demo clean=$A bug=$B"; tail -1 /tmp/plant/$ID.bug.log
  (cd /tmp/wt && MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
     OMP_NUM_THREADS=1 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1 PYTHONPATH=/tmp/wt /opt/venv/bin/python -m pytest -q \
     -p no:cacheprovider --timeout=300 -n 8 tests 2>&1 | tail -1)
  shift 2
  for p in "$@"; do
    VERIF_REPO=/tmp/wt python3 ${VDIR:-/verif}/check.py $p --tier quick > /tmp/plant/$ID.$p.log 2>&1; echo "$p rc=$?"; tr "\r" "\n" < /tmp/plant/$ID.$p.log | grep -h "VIOLATION\|violation kind" | head -2
  done ;;
esac
