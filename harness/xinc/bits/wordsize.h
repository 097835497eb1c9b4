// glibc's x86 header decides by __x86_64__; the cross targets need their own answer.
#if defined(__LP64__)
# define __WORDSIZE 64
#else
# define __WORDSIZE 32
#endif
#define __WORDSIZE_TIME64_COMPAT32 0
#define __SYSCALL_WORDSIZE __WORDSIZE
