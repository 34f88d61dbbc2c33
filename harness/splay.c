/* C15: a splay-tree is an ordered map. */
#define VF_STUB_DESTROYSTRING
#define VF_COUNT_MEM
#include "stub_base.h"
#include "wizard/splay-tree.h"
#ifndef OPS
#define OPS 1
#endif
#ifndef PRE
#define PRE 3
#endif
#define NOBJ (PRE+OPS+1)
/* A fresh key object and a fresh value per call.  Its place in the order is an
   arbitrary choice relative to the keys used before (equal to one of them or in
   one of the gaps), so all total preorders of the keys are covered. */
typedef struct { int rank, dead; } Key;
static Key keys[NOBJ]; static int n_keys;
static unsigned char vals[NOBJ]; static int v_dead[NOBJ];
static int classes[NOBJ], n_classes;       /* distinct ranks, ascending */
static int m_has[NOBJ], m_key[NOBJ];       /* per class (by position) */
static int m_kdead[NOBJ], m_vdead[NOBJ];
static SplayTreeInfo *T;

int LocaleCompare(const char *a,const char *b) { return(0); }
int CompareStringInfo(const StringInfo *a,const StringInfo *b) { return(0); }
static int cmp(const void *a,const void *b)
{
  const Key *p=a, *q=b;
  vf_assert(p->dead == 0 && q->dead == 0,"no released key is used");
  return(p->rank-q->rank);
}
static void *rel_key(void *k)
{
  vf_assert(((Key *) k)->dead == 0,"no key is released twice");
  ((Key *) k)->dead=1;
  return(NULL);
}
static void *rel_val(void *v)
{
  int i=(int) ((unsigned char *) v-vals);
  vf_assert(v_dead[i] == 0,"no value is released twice");
  v_dead[i]=1;
  return(NULL);
}
static size_t m_count(void)
{
  size_t n=0; int i;
  for (i=0; i < n_classes; i++)
    n+=m_has[i];
  return(n);
}
/* picks a class for key object o, creating one if it lies in a gap */
static int place(int o)
{
  int c=n_classes == 0 ? 0 : vf_pick(2*n_classes+1), at=c/2, i;
  if (n_classes != 0 && (c & 1) != 0)
    {
      keys[o].rank=classes[at];
      return(at);
    }
  {
    int lo=at > 0 ? classes[at-1] : 0, hi=at < n_classes ? classes[at] : 1 << 20;
    for (i=n_classes; i > at; i--)
    {
      classes[i]=classes[i-1]; m_has[i]=m_has[i-1]; m_key[i]=m_key[i-1];
    }
    n_classes++;
    classes[at]=(lo+hi)/2; m_has[at]=0;
    keys[o].rank=classes[at];
  }
  return(at);
}
static void step(int op)
{
  int o=n_keys++, r; const void *p; WizardBooleanType ok;
  r=place(o);
  switch (op)
  {
    case 0:
      vf_assert(AddValueToSplayTree(T,&keys[o],&vals[o]) != WizardFalse,"value is added");
      if (m_has[r]) { m_kdead[m_key[r]]=1; m_vdead[m_key[r]]=1; }
      m_has[r]=1; m_key[r]=o;
      break;
    case 1:
      p=GetValueFromSplayTree(T,&keys[o]);
      vf_assert(p == (m_has[r] ? &vals[m_key[r]] : NULL),"lookup returns the latest value");
      break;
    case 2:
      ok=DeleteNodeFromSplayTree(T,&keys[o]);
      vf_assert((ok != WizardFalse) == m_has[r],"deletion reports whether the key was present");
      if (m_has[r]) { m_kdead[m_key[r]]=1; m_vdead[m_key[r]]=1; m_has[r]=0; }
      break;
    case 3:
      p=RemoveNodeFromSplayTree(T,&keys[o]);
      vf_assert(p == (m_has[r] ? &vals[m_key[r]] : NULL),"removal returns the value");
      if (m_has[r]) { m_kdead[m_key[r]]=1; m_has[r]=0; }
      break;
    case 4:
      ok=DeleteNodeByValueFromSplayTree(T,m_has[r] ? &vals[m_key[r]] : &vals[o]);
      vf_assert((ok != WizardFalse) == m_has[r],"deletion by value");
      if (m_has[r]) { m_kdead[m_key[r]]=1; m_vdead[m_key[r]]=1; m_has[r]=0; }
      break;
    case 5:
      p=RemoveNodeByValueFromSplayTree(T,m_has[r] ? &vals[m_key[r]] : &vals[o]);
      vf_assert(p == (m_has[r] ? &keys[m_key[r]] : NULL),"removal by value returns the key");
      if (m_has[r]) { m_vdead[m_key[r]]=1; m_has[r]=0; }
      break;
  }
}
static void observe(SplayTreeInfo *t,const Key *k,const unsigned char *v)
{
  int r;
  vf_assert(GetNumberOfNodesInSplayTree(t) == m_count(),"node count is the number of distinct keys");
  ResetSplayTreeIterator(t);
  for (r=0; r < n_classes; r++)
    if (m_has[r])
      vf_assert(GetNextKeyInSplayTree(t) == &k[m_key[r]],"keys in ascending order");
  vf_assert(GetNextKeyInSplayTree(t) == NULL,"iteration ends");
  ResetSplayTreeIterator(t);
  for (r=0; r < n_classes; r++)
    if (m_has[r])
      vf_assert(GetNextValueInSplayTree(t) == &v[m_key[r]],"values in ascending order");
  vf_assert(GetNextValueInSplayTree(t) == NULL,"iteration ends");
}
static void finish(void)
{
  int i;
#ifdef RESET
  ResetSplayTree(T);
  vf_assert(GetNumberOfNodesInSplayTree(T) == 0,"reset tree is empty");
  ResetSplayTreeIterator(T);
  vf_assert(GetNextKeyInSplayTree(T) == NULL,"reset tree is empty");
#endif
  T=DestroySplayTree(T);
  for (i=0; i < n_classes; i++)
    if (m_has[i])
      { m_kdead[m_key[i]]=1; m_vdead[m_key[i]]=1; }
  for (i=0; i < NOBJ; i++)
  {
    vf_assert(keys[i].dead == m_kdead[i],"each stored key released exactly once");
    vf_assert(v_dead[i] == m_vdead[i],"each stored value released exactly once");
  }
  vf_assert(vf_live == 0,"no node is leaked");
}
static void build(void)
{
  int k;
  T=NewSplayTree(cmp,rel_key,rel_val);
  for (k=0; k < PRE; k++)
    step(0);
}
void h_history(void)
{
  int k;
  build();
#ifdef OP1
  step(OP1);
  for (k=1; k < OPS; k++)
#else
  for (k=0; k < OPS; k++)
#endif
    step(vf_pick(6));
  observe(T,keys,vals);
  finish();
  vf_reach("end");
}
/* a clone holds the same entries and the original is unchanged */
static Key ckeys[NOBJ]; static unsigned char cvals[NOBJ];
static void *clone_key(void *k)
{
  ckeys[(Key *) k-keys]=*(Key *) k;
  return(&ckeys[(Key *) k-keys]);
}
static void *clone_val(void *v) { return(&cvals[(unsigned char *) v-vals]); }
void h_clone(void)
{
  SplayTreeInfo *c; int k;
  build();
  for (k=0; k < OPS; k++)
    step(vf_pick(4));
  c=CloneSplayTree(T,clone_key,clone_val);
  observe(c,ckeys,cvals);
  observe(T,keys,vals);
  vf_reach("end");
}
/* an operation in the middle of an iteration: the rest is still visited in
   order and no released key is used */
void h_iterate(void)
{
  int k, n, r, o, i, last; const void *p;
  build();
  ResetSplayTreeIterator(T);
  n=vf_pick(PRE);
  last=-1;
  for (r=0, i=0; r < n_classes && i < n; r++)
    if (m_has[r])
      {
        vf_assert(GetNextKeyInSplayTree(T) == &keys[m_key[r]],"keys in ascending order");
        last=keys[m_key[r]].rank; i++;
      }
  /* the next unvisited key */
  for (r=0; r < n_classes; r++)
    if (m_has[r] && classes[r] > last)
      break;
#ifdef OP1
  step(OP1);
#else
  step(vf_pick(4));
#endif
  /* keys beyond the iterator that were there all the time come next; a key
     added meanwhile may or may not be visited */
  o=n_keys-1;
  p=GetNextKeyInSplayTree(T);
  for (r=0; r < n_classes; r++)
    if (m_has[r] && classes[r] > last)
      {
        if (p != &keys[m_key[r]] && m_key[r] == o)
          continue;
        vf_assert(p == &keys[m_key[r]],"iteration continues in order");
        p=GetNextKeyInSplayTree(T);
      }
  vf_assert(p == NULL,"iteration ends");
  vf_reach("end");
}
