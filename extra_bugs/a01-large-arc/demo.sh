#!/bin/bash
# compiles demo.adb against the Ada runtime of the current tree and runs it
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 2; trap '/bin/rm -rf "$d"' EXIT
cp ADA_RTL2/src/*.ad[sb] "$here/demo.adb" "$d/" && cp ADA_RTL2/boards/x86_board_config.ads "$d/board_config.ads" || exit 2
(cd "$d" && gnatmake -q -gnat2012 -gnatws demo.adb) || exit 2
"$d/demo"
