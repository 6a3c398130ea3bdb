#include <stdio.h>
#include <string.h>
#include "asn1crt_encoding.h"
static byte data[20]; static int pos;
void fetchData(BitStream* s, void* p) { memcpy(s->buf, data + pos, s->count); pos += s->count; }
void pushData(BitStream* s, void* p) { }
int main(void) {
	byte b[4], a[10]; BitStream s; int x; for (int i = 0; i < 20; i++) data[i] = (byte)(i + 1);
	BitStream_AttachBuffer2(&s, b, 4, &x, &x); fetchData(&s, &x);
	if (!BitStream_DecodeOctetString_no_length(&s, a, 10) || memcmp(a, data, 10)) { printf("array changed on the way: %d %d %d\n", a[0], a[3], a[4]); return 1; }
	return 0;
}
