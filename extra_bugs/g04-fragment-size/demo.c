#include <stdio.h>
#include "spec.h"
static T v; static byte b[T_REQUIRED_BYTES_FOR_ENCODING];
int main(void) {
	BitStream s; int e = 0; v.nCount = 90000; BitStream_Init(&s, b, sizeof b);
	if (!T_Encode(&v, &s, &e, TRUE)) { printf("the longest value does not fit in %d octets\n", T_REQUIRED_BYTES_FOR_ENCODING); return 1; }
	return 0;	/* the address sanitizer ends the program when the buffer is overrun */
}
