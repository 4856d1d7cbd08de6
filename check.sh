#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator against /repo's working tree and run one check
cd /verif || exit 2
log=$(bash /verif/build.sh) || { echo "$log" | tail -40; echo "the simulator does not build against /repo"; exit 2; }
exec /verif/target/release/loftysim check "$1" "${2:-${VERIF_TIER:-quick}}"
