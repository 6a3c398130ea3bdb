#include <stdio.h>
#include <string.h>
#include "asn1crt_encoding.h"
int main(void) {
	byte b[8]; BitStream s; memset(b, 0xFF, 8); BitStream_AttachBuffer(&s, b, 8);
	for (int i = 0; i < 6; i++) BitStream_AppendBit(&s, 0);
	BitStream_AppendPartialByte(&s, 0, 5, FALSE);	/* five zero bits at bit 6 */
	if (b[0] != 0 || (b[1] & 0xE0) != 0) { printf("zero bits not written: %02x %02x\n", b[0], b[1]); return 1; }
	return 0;
}
