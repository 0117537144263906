#!/bin/bash
# thorough.sh ID: the check with many more cases, then a coverage-guided search for a failing one.
cd "$(dirname "$0")" || exit 2
export VERIF_TIER=thorough
./check.sh "$1" || exit
case $1 in
  # these start other programs for each case, or threads
  C21 | C26 | C27) exit 0 ;;
esac
./fuzz.sh "$1" "${VERIF_FUZZ_SECONDS:-1200}"
