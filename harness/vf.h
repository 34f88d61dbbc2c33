/* Harness support: one source, two uses.
   Under CBMC (VF_CBMC) inputs are arbitrary values and are listed in the
   counterexample trace; natively they are read, in the same order, from the
   file named by the environment variable VF_INPUT. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#ifdef VF_CBMC
uint8_t nondet_vf8(void);
uint16_t nondet_vf16(void);
uint32_t nondet_vf32(void);
uint64_t nondet_vf64(void);
#define VF_DEF(T,name,fn) static inline T name(void) \
  { T v=fn(); __CPROVER_input("vf",v); return v; }
VF_DEF(uint8_t,vf_u8,nondet_vf8)
VF_DEF(uint16_t,vf_u16,nondet_vf16)
VF_DEF(uint32_t,vf_u32,nondet_vf32)
VF_DEF(uint64_t,vf_u64,nondet_vf64)
#define vf_assume(c) __CPROVER_assume(c)
#define vf_assert(c,m) __CPROVER_assert(c,m)
/* assert, then let the rest of the query rely on it (cut point) */
#define vf_cut(c,m) do { __CPROVER_assert(c,m); __CPROVER_assume(c); } while (0)
#ifdef VF_SWEEP
#define vf_reach(m) do { } while (0)
#else
#define vf_reach(m) __CPROVER_assert(0,"VF_REACH " m)
#endif
#define vf_stop() __CPROVER_assume(0)
#else
extern uint64_t vf_next(void);
extern void vf_fail(const char *,const char *,int) __attribute__((noreturn));
extern void vf_unmet(const char *,int) __attribute__((noreturn));
extern void vf_finish(void) __attribute__((noreturn));
#define vf_u8() ((uint8_t) vf_next())
#define vf_u16() ((uint16_t) vf_next())
#define vf_u32() ((uint32_t) vf_next())
#define vf_u64() ((uint64_t) vf_next())
#define vf_assume(c) do { if (!(c)) vf_unmet(__FILE__,__LINE__); } while (0)
#define vf_assert(c,m) do { if (!(c)) vf_fail(m,__FILE__,__LINE__); } while (0)
#define vf_cut(c,m) vf_assert(c,m)
#define vf_reach(m) do { } while (0)
#define vf_stop() vf_finish()
#endif

/* value in [lo,hi] */
static inline size_t vf_range(size_t lo,size_t hi)
{
  size_t v=(size_t) vf_u64();
  vf_assume(v >= lo && v <= hi);
  return(v);
}
static inline size_t vf_small(size_t lo,size_t hi)   /* 8-bit choice */
{
  uint8_t v=vf_u8();
  vf_assume(v >= lo && v <= hi);
  return((size_t) v);
}
static inline int vf_bool(void)
{
  uint8_t v=vf_u8();
  vf_assume(v <= 1);
  return((int) v);
}
static inline void vf_bytes(void *p,size_t n)
{
  size_t i;
  for (i=0; i < n; i++)
    ((unsigned char *) p)[i]=vf_u8();
}
/* length in [lo,hi]: arbitrary, or given by the query (VF_LENS=a,b,...) */
#ifdef VF_LENS
static const unsigned char vf_lens[]={VF_LENS};
static unsigned vf_lens_i;
#endif
static inline size_t vf_length(size_t lo,size_t hi)
{
#ifdef VF_LENS
  return(vf_lens[vf_lens_i++]);
#else
  return(vf_small(lo,hi));
#endif
}
/* arbitrary C string of length <= max in a heap block of exactly its size */
static inline char *vf_string(size_t max)
{
  size_t i, n=vf_length(0,max);
  char *s=(char *) malloc(n+1);
  for (i=0; i < max; i++)
    if (i < n)
      {
        s[i]=(char) vf_u8();
        vf_assume(s[i] != '\0');
      }
  s[n]='\0';
  return(s);
}
/* choice in [0,n) that is a constant on each path of a path-wise query */
static inline int vf_pick(int n)
{
  uint8_t v=vf_u8();
  vf_assume(v < n);
  switch (v)
  {
    case 0: vf_assume(n > 0); return(0);
    case 1: vf_assume(n > 1); return(1);
    case 2: vf_assume(n > 2); return(2);
    case 3: vf_assume(n > 3); return(3);
    case 4: vf_assume(n > 4); return(4);
    case 5: vf_assume(n > 5); return(5);
    case 6: vf_assume(n > 6); return(6);
    case 7: vf_assume(n > 7); return(7);
    case 8: vf_assume(n > 8); return(8);
    case 9: vf_assume(n > 9); return(9);
    default: vf_assume(n > 10); return(10);
  }
}
#ifdef VF_CBMC
#define vf_prefer(a,b) (a)
#else
#define vf_prefer(a,b) (b)
#endif
#endif
