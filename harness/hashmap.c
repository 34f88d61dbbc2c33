/* C14: a hash-map is a finite map. */
#define VF_STUB_DESTROYSTRING
#define VF_COUNT_MEM
/* Growth is confined to the concrete prefix of the history (GROW) or absent. */
static int vf_grow_ok=1, vf_grow_fail;
static void vf_grow_guard(void);
#define VF_QUANTUM_HOOK() do { vf_grow_guard(); if (vf_grow_fail) return(NULL); } while (0)
#include "stub_base.h"
static void vf_grow_guard(void)
{
  if (!vf_grow_ok)
    vf_stop();         /* outside the query's bounds */
}
#include "wizard/hashmap.h"
#ifndef OPS
#define OPS 2
#endif
#ifndef PRE
#define PRE 2
#endif
#ifndef CAP
#define CAP 3
#endif
#define NK 3            /* classes of equal keys */
#define NO 2            /* key objects per class: equal but distinct */
static unsigned char keys[NK*NO], vals[8];
static unsigned char cls_hash[NK];
static int krel[NK*NO], vrel[8];
static int m_has[NK], m_key[NK], m_val[NK]; /* model: key object and value */
static int m_krel[NK*NO], m_vrel[8];
static HashmapInfo *M;
static int cls(const void *k) { return((int) ((const unsigned char *) k-keys)/NO); }
static size_t hash(const void *k) { return(cls_hash[cls(k)]); }
static WizardBooleanType equal(const void *a,const void *b)
{
  return(cls(a) == cls(b) ? WizardTrue : WizardFalse);
}
static void *rel_key(void *k) { krel[(unsigned char *) k-keys]++; return(NULL); }
static void *rel_val(void *v) { vrel[(unsigned char *) v-vals]++; return(NULL); }
static size_t m_count(void)
{
  size_t n=0; int i;
  for (i=0; i < NK; i++)
    n+=m_has[i];
  return(n);
}
static int next_val;    /* values are opaque to the map: a fresh one each time */
static void step_key(int op,int k)
{
  int v=next_val++, c=k/NO; void *r;
  switch (op)
  {
    case 0:
      vf_assert(PutEntryInHashmap(M,&keys[k],&vals[v]) != WizardFalse,"entry is stored");
      if (m_has[c]) { m_krel[m_key[c]]++; m_vrel[m_val[c]]++; }
      m_has[c]=1; m_key[c]=k; m_val[c]=v;
      break;
    case 1:
      r=GetValueFromHashmap(M,&keys[k]);
      vf_assert(r == (m_has[c] ? &vals[m_val[c]] : NULL),"lookup returns the latest value");
      break;
    case 2:
      r=RemoveEntryFromHashmap(M,&keys[k]);
      vf_assert(r == (m_has[c] ? &vals[m_val[c]] : NULL),"removal returns the value");
      if (m_has[c]) m_krel[m_key[c]]++;
      m_has[c]=0;
      break;
    case 3:   /* partial iteration by key, then an operation elsewhere */
      ResetHashmapIterator(M);
      (void) GetNextKeyInHashmap(M);
      break;
  }
}
static void step(int op) { step_key(op,(int) vf_small(0,NK*NO-1)); }
static void observe(void)
{
  int i, c, seen[NK]={0}, k; void *r;
  vf_assert(GetNumberOfEntriesInHashmap(M) == m_count(),"entry count is the number of distinct keys");
  vf_assert((IsHashmapEmpty(M) != WizardFalse) == (m_count() == 0),"emptiness");
  k=(int) vf_small(0,NK*NO-1);
  r=GetValueFromHashmap(M,&keys[k]);
  vf_assert(r == (m_has[k/NO] ? &vals[m_val[k/NO]] : NULL),"lookup returns the latest value");
#ifdef LOOKUP_ONLY
  return;
#endif
  ResetHashmapIterator(M);
  if (vf_bool())
    {
      for (i=0; i <= NK; i++)
      {
        r=GetNextKeyInHashmap(M);
        if (r == NULL)
          break;
        c=cls(r);
        vf_assert(m_has[c] && r == &keys[m_key[c]],"iteration yields stored keys");
        seen[c]++;
      }
      for (c=0; c < NK; c++)
        vf_assert(seen[c] == m_has[c],"every key once");
    }
  else
    {
      int nv[8]={0};
      for (i=0; i <= NK; i++)
      {
        r=GetNextValueInHashmap(M);
        if (r == NULL)
          break;
        nv[(unsigned char *) r-vals]++;
      }
      for (c=0; c < NK; c++)
        if (m_has[c])
          nv[m_val[c]]--;
      for (c=0; c < 8; c++)
        vf_assert(nv[c] == 0,"every value once");
    }
}
#ifndef P0
#define P0 0
#endif
#ifndef P1
#define P1 2
#endif
#ifndef P2
#define P2 4
#endif
#ifndef H0
#define H0 5
#endif
#ifndef H1
#define H1 5
#endif
#ifndef H2
#define H2 5
#endif
void h_history(void)
{
  int i, k;
  cls_hash[0]=H0; cls_hash[1]=H1; cls_hash[2]=H2;
  M=NewHashmap(CAP,hash,equal,rel_key,rel_val);
#ifdef GROWFAIL
  vf_grow_fail=1;
#endif
  vf_grow_ok=PRE > 0;
  if (PRE > 0) step_key(0,P0);
  if (PRE > 1) step_key(0,P1);
  if (PRE > 2) step_key(0,P2);
  vf_grow_ok=0;
#ifdef OP1
  step(OP1);
  for (k=1; k < OPS; k++)
#else
  for (k=0; k < OPS; k++)
#endif
    step((int) vf_small(0,3));
  observe();
  M=DestroyHashmap(M);
  for (i=0; i < NK; i++)
    if (m_has[i])
      { m_krel[m_key[i]]++; m_vrel[m_val[i]]++; }
  for (i=0; i < NK*NO; i++)
    vf_assert(krel[i] == m_krel[i],"each key released exactly once");
  for (i=0; i < 8; i++)
    vf_assert(vrel[i] == m_vrel[i],"each value released exactly once");
  vf_assert(vf_live == 0,"no entry is leaked");
  vf_reach("end");
}
