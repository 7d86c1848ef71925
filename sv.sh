#!/bin/bash
# dev helper: rebuild and survey
. /opt/vp/env.sh
cd /verif/harness && CARGO_TARGET_DIR=${DEVT:-/tmp/devt} cargo build --offline 2>&1 | grep -E "^error" -A9 | head -60
timeout 900 ${DEVT:-/tmp/devt}/debug/orpbt survey "$@" 2>&1
