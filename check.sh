#!/bin/bash
# check.sh ID quick|thorough: builds the simulator against /repo and runs one check.
cd "$(dirname "$0")" || exit 2
dst/build.sh || exit 2
exec dst/target/plain/release/dst check "$1" "$2" "${VERIF_SEED:-1}" "$PWD"
