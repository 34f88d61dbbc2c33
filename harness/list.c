/* C13: a linked list is a sequence. */
#define VF_STUB_DESTROYSTRING
#define VF_COUNT_MEM
#include "stub_base.h"
#include "wizard/hashmap.h"
#ifndef OPS
#define OPS 2
#endif
#ifndef PRE
#define PRE 3
#endif
#define MAXN (PRE+OPS+1)
static unsigned char pool[8];          /* values are &pool[k] */
static int released[8];
static int m_val[MAXN+1]; static size_t m_n; static size_t m_it; /* model */
static LinkedListInfo *L;
static size_t cap;

static void *rel(void *v)
{
  released[(unsigned char *) v-pool]++;
  return(NULL);
}
static int by_address(const void *a,const void *b)
{
  return((int) ((unsigned char *) a-(unsigned char *) b));
}
static void m_insert(size_t at,int v)
{
  size_t i;
  for (i=MAXN; i > 0; i--)
    if (i > at && i <= m_n)
      m_val[i]=m_val[i-1];
  m_val[at]=v;
  m_n++;
}
static void m_remove(size_t at)
{
  size_t i;
  for (i=0; i < MAXN; i++)
    if (i >= at && i+1 < m_n)
      m_val[i]=m_val[i+1];
  m_n--;
}
static void observe(void)
{
  size_t i; void *a[MAXN+1];
  vf_assert(GetNumberOfElementsInLinkedList(L) == m_n,"element count");
  vf_assert((IsLinkedListEmpty(L) != WizardFalse) == (m_n == 0),"emptiness");
  ResetLinkedListIterator(L);
  for (i=0; i < MAXN; i++)
    if (i < m_n)
      vf_assert(GetNextValueInLinkedList(L) == &pool[m_val[i]],"iteration order");
  vf_assert(GetNextValueInLinkedList(L) == NULL,"iteration ends");
  i=vf_small(0,MAXN);
  vf_assert(GetValueFromLinkedList(L,i) == (i < m_n ? &pool[m_val[i]] : NULL),"value by position");
  vf_assert(GetLastValueInLinkedList(L) == (m_n ? &pool[m_val[m_n-1]] : NULL),"last value");
  for (i=0; i <= MAXN; i++)
    a[i]=NULL;
  vf_assert(LinkedListToArray(L,a) != WizardFalse,"array copy succeeds");
  for (i=0; i < MAXN; i++)
    vf_assert(a[i] == (i < m_n ? &pool[m_val[i]] : NULL),"array copy");
}
static void step(int op)
{
  int v=(int) vf_small(0,7); size_t at=vf_small(0,MAXN), i; void *r;
  WizardBooleanType ok;
  switch (op)
  {
    case 0:
      ok=AppendValueToLinkedList(L,&pool[v]);
      vf_assert((ok != WizardFalse) == (m_n < cap),"append succeeds unless full");
      if (ok) m_insert(m_n,v);
      break;
    case 1:
      ok=InsertValueInLinkedList(L,at,&pool[v]);
      vf_assert((ok != WizardFalse) == (m_n < cap && at <= m_n),"insert succeeds unless full or out of range");
      if (ok) m_insert(at,v);
      break;
    case 2:
      r=RemoveElementFromLinkedList(L,at);
      vf_assert(r == (at < m_n ? &pool[m_val[at]] : NULL),"remove by position returns the element");
      if (at < m_n) m_remove(at);
      break;
    case 3:
      r=RemoveElementByValueFromLinkedList(L,&pool[v]);
      for (i=0; i < MAXN; i++)
        if (i < m_n && m_val[i] == v)
          break;
      vf_assert(r == (i < m_n ? &pool[v] : NULL),"remove by value returns the value");
      if (i < m_n) m_remove(i);
      break;
    case 4:
      r=RemoveLastElementFromLinkedList(L);
      vf_assert(r == (m_n ? &pool[m_val[m_n-1]] : NULL),"remove last returns the element");
      if (m_n) m_remove(m_n-1);
      break;
    case 5:   /* sorted insert; without replacement it goes after equals */
    {
      void *old=NULL; int replace=vf_bool();
      for (i=1; i < MAXN; i++)
        vf_assume(i >= m_n || m_val[i-1] <= m_val[i]);
      ok=InsertValueInSortedLinkedList(L,by_address,replace ? &old : NULL,&pool[v]);
      vf_assert((ok != WizardFalse) == (m_n < cap),"sorted insert succeeds unless full");
      if (ok)
        {
          for (i=0; i < MAXN; i++)
            if (i >= m_n || m_val[i] > v || (replace && m_val[i] == v))
              break;
          if (replace && i < m_n && m_val[i] == v)
            {
              vf_assert(old == &pool[v],"replaced value is returned");
              m_val[i]=v;
            }
          else
            {
              vf_assert(old == NULL,"nothing replaced");
              m_insert(i,v);
            }
        }
      break;
    }
    case 6:
      ClearLinkedList(L,NULL);
      m_n=0;
      break;
  }
}
static void start(void)
{
#ifdef PREN
  size_t i, n=PREN;
#else
  size_t i, n=vf_small(0,PRE);
#endif
#ifdef UNLIMITED
  size_t c=0;
#else
  size_t c=vf_small(0,MAXN);
#endif
  cap=c == 0 ? (size_t) (~0) : c;
  L=NewLinkedList(c);
  for (i=0; i < PRE; i++)
    if (i < n)
      {
        int v=(int) vf_small(0,7);
        if (AppendValueToLinkedList(L,&pool[v]) != WizardFalse)
          { m_val[m_n]=v; m_n++; }
      }
  vf_assert(m_n == (n < cap ? n : cap),"appends succeed until full");
}
static void finish(void)
{
  int count[8]={0}; size_t i; int live;
  observe();
  for (i=0; i < MAXN; i++)
    if (i < m_n)
      count[m_val[i]]++;
  if (vf_bool())
    {
      ClearLinkedList(L,rel);
      vf_assert(GetNumberOfElementsInLinkedList(L) == 0 && GetNextValueInLinkedList(L) == NULL,"cleared list is empty");
      vf_assert(AppendValueToLinkedList(L,&pool[0]) != WizardFalse && GetNextValueInLinkedList(L) == &pool[0],"cleared list is usable");
      L=DestroyLinkedList(L,NULL);
    }
  else
    L=DestroyLinkedList(L,rel);
  for (i=0; i < 8; i++)
    vf_assert(released[i] == count[i],"each value released exactly once");
  vf_assert(vf_live == 0,"no element is leaked");
  vf_reach("end");
}
void h_history(void)
{
  int k;
  start();
#ifdef OP1
  step(OP1);
  for (k=1; k < OPS; k++)
#else
  for (k=0; k < OPS; k++)
#endif
    step((int) vf_small(0,6));
  finish();
}
/* the iterator keeps its place while the list changes behind or ahead of it */
void h_iterate(void)
{
  size_t i, k; int op=(int) vf_small(0,5); size_t before, seen; int v, at;
  start();
  vf_assume(m_n > 0);
  k=vf_small(0,PRE);
  vf_assume(k < m_n);
  ResetLinkedListIterator(L);
  for (i=0; i < PRE; i++)
    if (i < k)
      vf_assert(GetNextValueInLinkedList(L) == &pool[m_val[i]],"iteration order");
  /* change strictly ahead of or behind the iterator, then finish iterating:
     every element that is in the list throughout and was not yet visited is
     visited, in order, and no freed memory is touched */
  {
    size_t at=vf_small(0,MAXN); int v=(int) vf_small(0,7); size_t j;
    switch (vf_small(0,3))
    {
      case 0: if (AppendValueToLinkedList(L,&pool[v]) != WizardFalse) m_insert(m_n,v); break;
      case 1:
        vf_assume(at < m_n && at != k);
        vf_assert(RemoveElementFromLinkedList(L,at) == &pool[m_val[at]],"removal");
        m_remove(at);
        if (at < k) k--;
        break;
      case 2:
        vf_assume(at <= m_n && at != k);
        if (InsertValueInLinkedList(L,at,&pool[v]) != WizardFalse)
          { m_insert(at,v); if (at < k) k++; }
        break;
      case 3:
        vf_assume(m_n-1 != k);
        vf_assert(RemoveLastElementFromLinkedList(L) == &pool[m_val[m_n-1]],"removal");
        m_remove(m_n-1);
        break;
    }
    for (j=0; j < MAXN; j++)
      if (j >= k && j < m_n)
        vf_assert(GetNextValueInLinkedList(L) == &pool[m_val[j]],"iteration continues");
    vf_assert(GetNextValueInLinkedList(L) == NULL,"iteration ends");
  }
  vf_reach("end");
}
/* sorted insertion alone, three times */
void h_sorted(void)
{
  int k;
  start();
  vf_assume(m_n == 0);
  for (k=0; k < OPS; k++)
    step(5);
  finish();
}
