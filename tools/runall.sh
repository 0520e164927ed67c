#!/bin/bash
# runs all checks one after another: tools/runall.sh [quick|thorough] [IDs]
cd "$(dirname "$0")/.."
t=${1:-quick}; shift
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25}; do
  ./check $c $t 2>&1 | tail -n 12 | cut -c1-700
done
