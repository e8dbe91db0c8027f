#!/bin/bash
# check.sh <property> [quick|thorough]          run a check
# check.sh <property> --replay <file>           run one recorded case again
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$V
"$V/build.sh" || exit 3
H=$V/.build/harness/release/harness
case "${2:-}" in
--replay) exec "$H" one "$3" ;;
*) exec "$H" check "$1" ${2:-} ;;
esac
