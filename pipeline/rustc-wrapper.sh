#!/bin/bash
# RUSTC_WRAPPER of the IR build: the harness crate itself ($SYM_CRATE) is emitted as LLVM bitcode.
rustc="$1"; shift
args=("$@")
if [[ " $* " == *" --crate-name $SYM_CRATE "* ]]; then
  for i in "${!args[@]}"; do
    [[ "${args[$i]}" == --emit=* ]] && args[$i]="--emit=dep-info,llvm-bc"
  done
fi
exec "$rustc" "${args[@]}"
