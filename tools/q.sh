#!/bin/bash
# quick developer run: q.sh TEST [seed]; prints only the failure summaries
. /opt/vp/env.sh
cd /verif/pbt && mkdir -p /tmp/qrep
VERIF_REPLAY_DIR=/tmp/qrep VERIF_SEED=${2:-1} GOFLAGS=-mod=mod go test ${RACE:+-race} -count=1 -run "^Test$1\$" . 2>&1 | grep -v "rapid\] draw\|^ *--- FAIL\|To reproduce\|harness_test.go\|Failed test output\|^$" | cut -c1-1800 | head -${LINES_MAX:-120}
