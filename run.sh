#!/bin/bash
# ./run.sh PROPERTY [--only STAGE:INDEX | --replay FILE]
# Builds the monitors against /repo's working tree, and runs one check.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
prop="$1"; shift
profile=dev
case "$prop" in
  M*) bin=vh-mpt ;;
  S*) bin=vh-smt ;;
  W*|T*|N*) bin=vh-dec ;;
  R*|V*|P*) bin=vh-prf; profile=proof ;;
  *) bin=vh-evm ;;
esac
( cd harness && cargo build -q --profile "$profile" -p "$bin" ) || { echo "INCONCLUSIVE property=$prop: build failed"; exit 2; }
dir=debug
[ "$profile" = dev ] || dir="$profile"
exec "$VERIF_DIR/target/$dir/$bin" "$prop" "$@"
