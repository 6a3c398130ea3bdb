#include <stdio.h>
#include "spec.h"
static T v; static byte b[T_REQUIRED_BYTES_FOR_ENCODING];
int main(void) {
	BitStream s; int e = 0; v.nCount = 3; v.arr[0] = 1; v.arr[1] = 2; v.arr[2] = 3; BitStream_Init(&s, b, sizeof b);
	if (!T_Encode(&v, &s, &e, TRUE) || BitStream_GetLength(&s) != 4 || b[0] != 3 || b[1] != 1) { printf("length determinant: %02x %02x %02x\n", b[0], b[1], b[2]); return 1; }
	return 0;
}
