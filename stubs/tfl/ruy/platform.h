#pragma once
#if defined(__arm__) || defined(__aarch64__)
#define RUY_PLATFORM_ARM 1
#else
#define RUY_PLATFORM_ARM 0
#endif
#ifdef __aarch64__
#define RUY_PLATFORM_ARM_64 1
#else
#define RUY_PLATFORM_ARM_64 0
#endif
#ifdef __arm__
#define RUY_PLATFORM_ARM_32 1
#else
#define RUY_PLATFORM_ARM_32 0
#endif
#define RUY_PLATFORM_NEON RUY_PLATFORM_ARM
#define RUY_PLATFORM_NEON_32 RUY_PLATFORM_ARM_32
#define RUY_PLATFORM_NEON_64 RUY_PLATFORM_ARM_64
#if defined(__x86_64__)
#define RUY_PLATFORM_X86_64 1
#define RUY_PLATFORM_X86 1
#else
#define RUY_PLATFORM_X86_64 0
#define RUY_PLATFORM_X86 0
#endif
#define RUY_PLATFORM_X86_ENHANCEMENTS RUY_PLATFORM_X86_64
