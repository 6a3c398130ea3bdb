#!/bin/bash
# compiles demo.c against the runtime of the current tree and runs it
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 2; trap '/bin/rm -rf "$d"' EXIT
gcc -w -fsanitize=address -g $(cat "$here/cflags" 2>/dev/null) -Iasn1crt "$here/demo.c" asn1crt/asn1crt.c asn1crt/asn1crt_encoding.c asn1crt/asn1crt_encoding_uper.c asn1crt/asn1crt_encoding_acn.c -lm -o "$d/demo" || exit 2
"$d/demo"
