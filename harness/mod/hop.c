/* A module that an application might load: passes a call on from one of several call sites. */
typedef void (*cb)(void *);
#define HOP(n) __attribute__((noinline)) void hop##n(cb f, void *a) { f(a); __asm__ volatile("nop # " #n ::: "memory"); }
HOP(0) HOP(1) HOP(2) HOP(3)
