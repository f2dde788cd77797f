#!/bin/bash
# bash check.sh quick|thorough ID    decides one property on /repo's current tree
# bash check.sh replay FILE          runs a recorded failing input again
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
bash "$here/setup.sh" || exit 2
case "$1" in
replay) exec "$here/bin/govc" replay "$2" ;;
*) exec "$here/bin/govc" check "$1" "$2" ;;
esac
