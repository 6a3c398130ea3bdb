#include <stdio.h>
#include <string.h>
#include "asn1crt_encoding.h"
int main(void) { byte b[16]; byte a[4] = {0x12, 0x34, 0x56, 0x78}; BitStream s; memset(b, 0xFF, 16); BitStream_AttachBuffer(&s, b, 16); BitStream_AppendBitZero(&s); if (!BitStream_AppendByteArray(&s, a, 4)) return 2;
 byte r[4]; flag z; BitStream_AttachBuffer(&s, b, 16); BitStream_ReadBit(&s, &z); BitStream_ReadByteArray(&s, r, 4); return memcmp(a, r, 4) != 0; }
