#!/bin/bash
# dev: r.sh BIN PROP [args]
export VERIF_DIR=/verif VERIF_SEED=${VERIF_SEED:-1}
b=$1; shift
timeout 900 /verif/target/debug/$b "$@" 2>&1 | tail -${TL:-50} | cut -c1-${CW:-1200}
