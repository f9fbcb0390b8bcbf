#pragma once
#define RUY_OPT_BIT_AVX 0x1
#define RUY_OPT_BIT_ASM 0x10
#define RUY_OPT_BIT_FAT_KERNEL 0x20
#ifndef RUY_OPT_SET
#define RUY_OPT_SET (~0)
#endif
#define RUY_OPT(x) ((RUY_OPT_SET & RUY_OPT_BIT_##x) != 0)
