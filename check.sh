#!/bin/bash
# usage: check.sh <PROPERTY>...   builds the analyzer from /verif/analyzer if needed and decides the properties on /repo
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/bin/analyzer"
export VERIF_DIR="$here"
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -name '*.go' -newer "$bin" -print -quit)" ]; then
  if ! bash "$here/build.sh" >"$here/bin.log" 2>&1; then
    cat "$here/bin.log"
    echo "the analyzer could not be built"
    exit 2
  fi
fi
exec "$bin" check "$@"
