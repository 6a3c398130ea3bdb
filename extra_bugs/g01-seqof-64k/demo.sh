#!/bin/bash
. "$(dirname "$0")/gen.sh"
run_asn1scc -c -uPER -o o spec.asn1 || exit 2
gcc -w -g -fsanitize=address -Io "$here/demo.c" o/*.c -lm -o demo || exit 2
./demo
