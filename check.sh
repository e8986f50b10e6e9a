#!/bin/bash
# check.sh ID[,ID...]|all TIER : build the analyser (from vendored sources, offline) and decide one property
cd "$(dirname "$0")" || exit 2
./setup.sh || { echo "cannot build the analyser"; exit 2; }
./bin/pmmlcheck "$1" "${2:-quick}"
rc=$?
if [ $rc -gt 1 ]; then
  # the analysis itself broke down: nothing was decided, so nothing may pass
  mkdir -p evidence
  echo "the analyser ended with status $rc; the property is undecided" > "evidence/$1.violation.txt"
  echo "VIOLATION property=$1 replay=$PWD/evidence/$1.violation.txt"
  rc=1
fi
exit $rc
