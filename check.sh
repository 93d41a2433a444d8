#!/bin/bash
# check.sh <property> : build against /repo's working tree and run the property's simulation.
# VERIF_SEED (default 1) decides every random choice, VERIF_TIER is quick or thorough.
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
exec target/release/finsim check --prop "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --home "$PWD"
