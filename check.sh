#!/bin/bash
# check.sh ID [--tier quick|thorough] [--seed N]    decide one property on /repo's current working tree
# check.sh ID --replay FILE                         run the trace of a replay file again
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. tools/env.sh
ID=$1; shift
case $ID in
  C21|C22)
    bash tools/build_threads.sh thr thrt || { echo "cannot build the thread simulator against /repo"; exit 2; }
    exec node sim/threads.mjs "$ID" "$@";;
  C10|C11|C12) V="tu turel";;
  *) V="dev tu rel turel";;
esac
case " $* " in
  *" --replay "*) V=$(grep -o '"variant": "[a-z]*"' "${!#}" | head -1 | cut -d'"' -f4);;
esac
bash tools/build.sh build $V || { echo "cannot build the harness against /repo"; exit 2; }
exec node sim/main.mjs "$ID" "$@"
