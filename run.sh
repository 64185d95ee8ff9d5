#!/bin/bash
# run.sh <property id> [quick|thorough]   decide one property on /repo's working tree
# run.sh replay FILE                      re-run one recorded failure
# run.sh build                            build the harness
cd "$(dirname "$0")" || exit 3
bin() { # property id -> harness binary
    case "$1" in
    C*) echo check_c ;; P*) echo check_p ;; A*) echo check_a ;; S*) echo check_s ;; L*) echo check_l ;; E*) echo check_e ;; G*) echo check_g ;;
    *) return 1 ;;
    esac
}
make -s -j8 >build.log 2>&1 || { cat build.log >&2; exit 3; }
case "$1" in
build) exit 0 ;;
replay)
    id=$(sed -n 's/^property //p' "$2" | head -1)
    b=$(bin "$id") || { echo "not a replay file: $2" >&2; exit 3; }
    exec build/$b replay "$2" ;;
esac
b=$(bin "$1") || { echo "unknown property $1" >&2; exit 3; }
case "${2:-${VERIF_TIER:-quick}}" in
thorough) exec build/$b run "$1" --thorough ;;
*) exec build/$b run "$1" --quick ;;
esac
