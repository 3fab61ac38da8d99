// SRCS: iso8859_simple.c (or iso8859_iconv.c)
// Two-byte character at the end of the output buffer: the terminator was written one byte past it
// (simple back end), or never written at all (iconv back end).
#include "iso8859.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
	static const uint8_t in[] = { 'A', 0xE9 };
	int bad = 0;
	for (size_t n = 1; n <= 6; ++n) {
		char* out = malloc(n);
		memset(out, 0x55, n);
		int r = iso8859_to_utf8(1, in, sizeof(in), out, n);
		if (r == 0 && !memchr(out, 0, n)) { printf("size %zu: not terminated\n", n); bad = 1; }
		if (n >= 4 && (r || !memchr(out, 0, n) || strcmp(out, "A\xc3\xa9"))) { printf("size %zu: wrong r=%d\n", n, r); bad = 1; }
		free(out);
	}
	return bad;
}
