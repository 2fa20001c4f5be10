#!/bin/bash
# checks/run.sh ID [quick|thorough]
cd "$(dirname "$0")/.." || exit 3
bash checks/build.sh || exit 3
exec "${CMV_TARGET:-/verif/target}/debug/cmv" check "$@"
