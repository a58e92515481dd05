#!/bin/bash
# check.sh ID quick|thorough     decide property ID on /repo's working tree
# check.sh ID --replay FILE      run one saved case
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
bash "$here/build.sh" || exit 3
vph=$here/target/debug/vph
cd "$here" || exit 3
case "${2:-${VERIF_TIER:-quick}}" in
--replay) exec "$vph" replay "$id" "${3:?file}" ;;
thorough) exec "$vph" run "$id" thorough ;;
*) exec "$vph" run "$id" quick ;;
esac
