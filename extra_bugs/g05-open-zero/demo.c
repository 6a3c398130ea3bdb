#include <stdio.h>
#include "spec.h"
int main(void) {
	T v = 1; int e = 0; if (!T_IsConstraintValid(&v, &e)) { printf("1 refused\n"); return 1; }
	v = 0; if (T_IsConstraintValid(&v, &e)) { printf("0 accepted\n"); return 1; }
	return 0;
}
