/* Stand-ins shared by the harnesses: allocation never fails and is exact,
   logging is silent, locks are counted, fatal exits end the path. */
#ifndef STUB_BASE_H
#define STUB_BASE_H
#include "vf.h"
#include "wizard/studio.h"
#include "wizard/exception.h"
#include "wizard/log.h"
#include "wizard/memory_.h"
#include "wizard/semaphore.h"

/* ---- fatal exits -------------------------------------------------------- */
#ifndef VF_NO_EXIT
static int vf_allow_fatal;      /* harness: a fatal exit is acceptable now */
void vf__exit(int status)
{
  vf_assert(vf_allow_fatal,"no fatal exit");
  vf_stop();
#ifndef VF_CBMC
  for (;;) ;
#endif
}
#endif

/* ---- exceptions: only the fact and severity are kept -------------------- */
#ifndef VF_NO_EXC
struct _ExceptionInfo { ExceptionType severity; };
static int vf_thrown;
static ExceptionType vf_severity;
static ExceptionInfo vf_exception_pool;
ExceptionInfo *AcquireExceptionInfo(void)
{
  vf_exception_pool.severity=UndefinedException;
  return(&vf_exception_pool);
}
ExceptionInfo *DestroyExceptionInfo(ExceptionInfo *e) { return(NULL); }
void CatchException(ExceptionInfo *e) { }
void ClearWizardException(ExceptionInfo *e) { e->severity=UndefinedException; }
WizardBooleanType ThrowWizardException(ExceptionInfo *e,const char *m,
  const char *f,const size_t l,const ExceptionType severity,
  const char *format,...)
{
  vf_thrown++;
  vf_severity=severity;
  if (e != NULL)
    e->severity=severity;
  return(WizardTrue);
}
WizardBooleanType ThrowException(ExceptionInfo *e,const ExceptionType severity,
  const char *reason,const char *description)
{
  vf_thrown++;
  vf_severity=severity;
  if (e != NULL)
    e->severity=severity;
  return(WizardTrue);
}
char *GetExceptionMessage(const int error)
{
  char *s=(char *) malloc(1);
  *s=0;
  return(s);
}
#endif
#ifdef VF_STUB_DESTROYSTRING
char *DestroyString(char *s) { free(s); return(NULL); }
#endif

#ifndef VF_NO_FATAL
#include "wizard/exception-private.h"
#ifndef VF_NO_FORMAT
ssize_t FormatLocaleString(char *string,const size_t length,const char *format,
  ...)
{
  if (length != 0)
    *string='\0';
  return(0);
}
#endif
void WizardsToolkitTerminus(void) { }
#endif

/* ---- memory ------------------------------------------------------------- */
#if defined(VF_BYTEMEM)
/* byte loops instead of the array models (cheaper for small symbolic sizes);
   the sources are compiled with -Dmemcpy=vf_memcpy etc. */
#undef memcpy
#undef memmove
#undef strlen
void *vf_memcpy(void *d,const void *s,size_t n)
{
  size_t i;
  for (i=0; i < n; i++)
    ((char *) d)[i]=((const char *) s)[i];
  return(d);
}
void *vf_memmove(void *d,const void *s,size_t n)
{
  char b[VF_BYTEMEM]; size_t i;
  vf_assert(n <= VF_BYTEMEM,"block size within the query's bound");
  for (i=0; i < n; i++)
    b[i]=((const char *) s)[i];
  for (i=0; i < n; i++)
    ((char *) d)[i]=b[i];
  return(d);
}
#define memcpy vf_memcpy
#define memmove vf_memmove
#endif
#if defined(VF_MAXALLOC) && defined(VF_CBMC)
/* blocks of constant size: requests above it are outside the query's bound */
static void *vf_malloc(size_t size)
{
  vf_assume(size <= VF_MAXALLOC);
  return((malloc)(VF_MAXALLOC));
}
static void *vf_realloc(void *p,size_t size)
{
  char *q=(char *) vf_malloc(size); size_t i;
  for (i=0; i < VF_MAXALLOC; i++)
    q[i]=((char *) p)[i];
  return(q);
}
#define malloc vf_malloc
#define realloc vf_realloc
#endif
#if defined(VF_PATHS) && defined(VF_CBMC)
/* The library models of malloc and free branch on nondeterministic choices,
   which multiplies the paths of a path-wise query.  These do not branch; a
   freed block is filled with pointers that may not be dereferenced. */
void *__CPROVER_allocate(__CPROVER_size_t,__CPROVER_bool);
static void *vf_malloc(size_t size) { return(__CPROVER_allocate(size,0)); }
static void vf_free(void *memory)
{
  size_t i, n;
  if (memory == NULL)
    return;
  n=__CPROVER_OBJECT_SIZE(memory)/sizeof(void *);
  for (i=0; i < n; i++)
    ((void **) memory)[i]=(void *) 16;
}
#define malloc vf_malloc
#define free vf_free
#endif
#ifndef VF_NO_MEM
#ifdef VF_COUNT_MEM
static int vf_live;             /* blocks acquired and not yet released */
#define VF_LIVE(n) (vf_live+=(n))
#else
#define VF_LIVE(n) ((void) 0)
#endif
#ifndef VF_ALLOC_FAIL
#define VF_ALLOC_FAIL() 0
#endif
void *AcquireWizardMemory(const size_t size)
{
  if (VF_ALLOC_FAIL())
    return(NULL);
  VF_LIVE(1);
  return(malloc(size == 0 ? 1 : size));
}
void *AcquireQuantumMemory(const size_t count,const size_t quantum)
{
#ifdef VF_QUANTUM_HOOK
  VF_QUANTUM_HOOK();
#endif
  if (VF_ALLOC_FAIL())
    return(NULL);
  VF_LIVE(1);
  return(malloc(count*quantum == 0 ? 1 : count*quantum));
}
void *AcquireAlignedMemory(const size_t count,const size_t quantum)
{
  return(AcquireQuantumMemory(count,quantum));
}
void *RelinquishWizardMemory(void *memory)
{
  if (memory == NULL)
    return(NULL);
  VF_LIVE(-1);
  free(memory);
  return(NULL);
}
void *RelinquishAlignedMemory(void *memory)
{
  return(RelinquishWizardMemory(memory));
}
void *ResizeWizardMemory(void *memory,const size_t size)
{
  if (memory == NULL)
    return(AcquireWizardMemory(size));
  if (VF_ALLOC_FAIL())
    {
      RelinquishWizardMemory(memory);
      return(NULL);
    }
  return(realloc(memory,size == 0 ? 1 : size));
}
void *ResizeQuantumMemory(void *memory,const size_t count,const size_t quantum)
{
  return(ResizeWizardMemory(memory,count*quantum));
}
void *CopyWizardMemory(void *destination,const void *source,const size_t size)
{
  return(memmove(destination,source,size));
}
void *ResetWizardMemory(void *memory,int byte,const size_t size)
{
  return(memset(memory,byte,size));
}
#endif

/* ---- semaphores --------------------------------------------------------- */
#ifndef VF_NO_SEM
struct SemaphoreInfo { int held; };
#ifdef VF_SEM_CHECK
static int vf_locks;            /* locks currently held */
#define VF_SEM(c,m) vf_assert(c,m)
#else
static int vf_locks;
#define VF_SEM(c,m) ((void) 0)
#endif
SemaphoreInfo *AcquireSemaphoreInfo(void)
{
  SemaphoreInfo *s=(SemaphoreInfo *) malloc(sizeof(*s));
  s->held=0;
  return(s);
}
void ActivateSemaphoreInfo(SemaphoreInfo **s)
{
  if (*s == NULL)
    *s=AcquireSemaphoreInfo();
}
void LockSemaphoreInfo(SemaphoreInfo *s)
{
  VF_SEM(s != NULL,"lock exists");
#ifdef VF_SEM_CHECK
  VF_SEM(s->held == 0,"lock is not acquired twice");
  s->held++; vf_locks++;
#endif
}
void UnlockSemaphoreInfo(SemaphoreInfo *s)
{
#ifdef VF_SEM_CHECK
  VF_SEM(s->held == 1,"only a held lock is released");
  s->held--; vf_locks--;
#endif
}
void RelinquishSemaphoreInfo(SemaphoreInfo **s)
{
#ifdef VF_SEM_CHECK
  VF_SEM((*s)->held == 0,"no lock is destroyed while held");
#endif
  free(*s);
  *s=NULL;
}
#endif

/* ---- logging ------------------------------------------------------------ */
#ifndef VF_NO_LOG
WizardBooleanType IsEventLogging(void) { return(WizardFalse); }
WizardBooleanType LogWizardEvent(const LogEventType t,const char *m,
  const char *f,const size_t l,const char *fmt,...) { return(WizardTrue); }
#endif
#endif
