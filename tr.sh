#!/bin/bash
# dev helper: trace around the first complaint of a case:  SEED=1 tr.sh PROP CASE [before] [after]
P=$1; C=$2; B=${3:-40}; A=${4:-3}
${DEVT:-/tmp/devt}/debug/orpbt case $P $C --seed ${SEED:-1} > /tmp/tr.$C 2>/dev/null
L=$(grep -n "^ .*!!" /tmp/tr.$C | head -1 | cut -d: -f1)
[ -z "$L" ] && { tail -3 /tmp/tr.$C; exit; }
S=$((L-B)); [ $S -lt 1 ] && S=1
sed -n "${S},$((L+A))p" /tmp/tr.$C | cut -c1-210
