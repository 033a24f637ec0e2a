#!/bin/bash
# check.sh ID quick|thorough      decide one property for /repo's current tree
# check.sh replay FILE            re-execute a replay file
# check.sh build                  build only (setup)
# check.sh show ID SEED | list | selftest [N]
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here"
. "$here/sim/env.sh"
B="$here/.build"
mkdir -p "$B" "$here/evidence" "$here/replays"
cd "$here/sim" || exit 2

build() { # $1: race or empty
  local suffix="${1:+-race}" flag="${1:+-race}"
  (
    flock 9
    go build -o "$B/mkoverlay" ./cmd/mkoverlay &&
    "$B/mkoverlay" -goroot /opt/veriftools/go1.27.3 -repo /repo -out "$B/ov" -zsim rt_src/zsim.go.txt &&
    go build $flag -overlay "$B/ov/overlay.json" -o "$B/vsim$suffix" ./cmd/vsim
  ) 9>"$B/lock" || { echo "build failed" >&2; exit 2; }
}

case "${1:-}" in
  build) build; build race ;;
  list|selftest|show) build; "$B/vsim" "$@" ;;
  showrace) build race; shift; "$B/vsim-race" show "$@" ;;
  replay)
    if grep -q '"class": "data-race"' "$2"; then build race; exec "$B/vsim-race" replay "$2"; fi
    build; exec "$B/vsim" replay "$2" ;;
  U18) build race; exec "$B/vsim-race" check "$1" "${2:-quick}" ;;
  U*) build; exec "$B/vsim" check "$1" "${2:-quick}" ;;
  *) sed -n 2,6p "${BASH_SOURCE[0]}"; exit 2 ;;
esac
