#!/bin/bash
# check.sh <property> <quick|thorough>
here=$(cd "$(dirname "$0")" && pwd)
bin=wzsim; cfg=main
[ "$1" = C19 ] && { bin=wzsim-alt; cfg=alt; }
"$here/build.sh" $cfg || exit 3
exec "${WZSIM_TARGET:-$here/target}/release/$bin" check "$1" "$2" "$here"
