#!/bin/bash
# check.sh ID [quick|thorough]
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
[ -x bin/gosym ] || bash setup.sh || exit 2
exec bin/gosym check -verif "$PWD" -repo /repo -id "$1" -tier "${2:-quick}"
