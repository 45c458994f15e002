#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the simulator against /repo's working tree and searches for violations of one property.
# Exit 0: the property held on everything explored; 1: violation, with its VIOLATION line;
# 2: no answer, the tree does not build.
here=$(cd "$(dirname "$0")/.." && pwd)
prop=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in *[!0-9]* | '') seed=1 ;; esac
case $prop in
build | Pbuild | T0[1-4] | A0[12] | I01 | N01 | C0[1-3] | K01 | L0[12] | Q01 | S0[1-3] | D01 | X01 | P0[1-7] | R01) ;;
*) echo "no answer: $prop is not a property" >&2; exit 2 ;;
esac
case $prop in
P*) kind=parser; features="--features parser" ;;
*) kind=dom; features= ;;
esac
export CARGO_TARGET_DIR=$here/build/$kind CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
exec 9>"$here/build/$kind.lock"
flock 9
log=$here/build/$kind.log
if ! (cd "$here/sim" && cargo build --release --offline --locked --quiet $features) >"$log" 2>&1; then
    grep -E -A6 '^error' "$log" | head -60
    echo "no answer: the simulator does not build against /repo" >&2
    exit 2
fi
# another check may rebuild while this one runs
sim=$(mktemp "$here/build/$kind.XXXXXX")
trap 'rm -f "$sim"' EXIT
cp "$CARGO_TARGET_DIR/release/xmldom-sim" "$sim"
chmod +x "$sim"
exec 9>&-
case $prop in build | Pbuild) exit 0 ;; esac
# simulated runs per tier, about 25 s and about 8 min on 8 cores
case $prop in
D01) quick=20000 thorough=300000 ;;
P05) quick=100000 thorough=2000000 ;;
P*) quick=250000 thorough=6000000 ;;
*) quick=100000 thorough=1200000 ;;
esac
if [ "$tier" = thorough ]; then runs=$thorough seconds=640; else runs=$quick seconds=240; fi
"$sim" check --prop "$prop" --tier "$tier" --seed "$seed" --runs "$runs" --seconds "$seconds" --verif "$here"
code=$?
case $code in 0 | 1) exit $code ;; esac
exit 2
