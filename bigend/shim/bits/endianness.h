#define __BYTE_ORDER __BIG_ENDIAN
