/* Stand-in for the header the compiler generates from common/BasicTypes.asn1 (PUSC-UINT16 [size 16, encoding pos-int, endianness big]). */
#ifndef VERIF_BASICTYPES_H
#define VERIF_BASICTYPES_H
#include "asn1crt.h"
#include "asn1crt_encoding.h"
#include "asn1crt_encoding_acn.h"
typedef asn1SccUint TPUSC_UINT16;
#define TPUSC_UINT16_REQUIRED_BYTES_FOR_ACN_ENCODING 2
static inline flag TPUSC_UINT16_ACN_Encode(const TPUSC_UINT16* v, BitStream* s, int* e, flag chk) { (void)chk; if (e) *e = 0; Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(s, *v); return TRUE; }
static inline flag TPUSC_UINT16_ACN_Decode(TPUSC_UINT16* v, BitStream* s, int* e) { flag r = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(s, v); *e = r ? 0 : 1; return r; }
#endif
