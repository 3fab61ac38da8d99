#ifndef VP_BER_SPLIT_H
#define VP_BER_SPLIT_H
#include "iso8825_ber.h"
/* partitioning only: keeps (consumed, length) pairs apart */
int vp_wrap_iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
{
	int r = iso8825_ber_decode(ptr, len, tlv);
	//@ split r;
	if (r > 0) {
		unsigned int l = tlv->length;
		//@ split l;
		tlv->length = l;
	}
	return r;
}
#endif
