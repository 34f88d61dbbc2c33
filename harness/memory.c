/* C22: memory requests. */
#define VF_NO_MEM
#include "stub_base.h"
#include "wizard/resource_.h"
#include "wizard/blob.h"
#include <errno.h>
static size_t asked; static int calls; static char block[16];
static void *rec_acquire(size_t n) { calls++; asked=n; return(vf_bool() ? block : NULL); }
static void *rec_resize(void *p,size_t n) { calls++; asked=n; return(vf_bool() ? block : NULL); }
static int freed; static void *freed_what;
static void rec_free(void *p) { freed++; freed_what=p; }
ssize_t GetWizardPageSize(void) { return(4096); }
static size_t pick_quantum(void)
{
#ifdef QUANTUM
  return(QUANTUM);
#else
  return(vf_u64());
#endif
}
/* count*quantum does not fit */
static int too_big(size_t count,size_t quantum)
{
#if defined(QUANTUM)
  return(QUANTUM != 0 && count > ~(size_t) 0/(QUANTUM != 0 ? QUANTUM : 1));
#elif defined(COUNT)
  return(COUNT != 0 && quantum > ~(size_t) 0/(COUNT != 0 ? COUNT : 1));
#else
  return(((unsigned __int128) count*quantum) >> 64 != 0);
#endif
}
static size_t pick_count(void)
{
#ifdef COUNT
  return(COUNT);
#else
  return(vf_u64());
#endif
}
void h_acquire(void)
{
  size_t count=pick_count(), quantum=pick_quantum(); void *p;
  SetWizardMemoryMethods(rec_acquire,rec_resize,rec_free);
  p=AcquireQuantumMemory(count,quantum);
  vf_assert(!too_big(count,quantum) || (p == NULL && calls == 0),"a product that does not fit is refused");
  vf_assert(p == NULL || (calls == 1 && !too_big(count,quantum) && asked >= count*quantum),"block is large enough");
#ifndef NOEXACT
  if (!too_big(count,quantum) && count != 0)
    vf_assert(calls == 1 && (asked == count*quantum || (count*quantum == 0 && asked >= 1)),"a product that fits is requested");
#endif
  vf_reach("end");
}
void h_resize(void)
{
  size_t count=pick_count(), quantum=pick_quantum(); void *p; char old[4];
  SetWizardMemoryMethods(rec_acquire,rec_resize,rec_free);
  p=ResizeQuantumMemory(old,count,quantum);
  vf_assert(!too_big(count,quantum) || (p == NULL && calls == 0),"a product that does not fit is refused");
  vf_assert(p == NULL || (calls == 1 && !too_big(count,quantum) && asked >= count*quantum),"block is large enough");
  vf_assert(p != NULL || (freed == 1 && freed_what == old),"the old block of a refused resize is released");
  vf_assert(p == NULL || freed == 0,"a resized block is not released");
  vf_reach("end");
}
#ifdef ALIGNED
#undef free
/* aligned and virtual memory: recorded backing and ledger */
/* laid out like the record in memory.c (only for the solver's sake) */
static struct { char filename[WizardPathExtent]; int type; size_t length; void *blob; size_t signature; char slack[448]; } record;
char *DestroyString(char *s) { return(NULL); }
static int heap_live, map_live, file_live, file_open; static size_t map_len, al_size, al_align;
static void *arena[2]; static int arenas; static char blob[8]; static void *heap_ptr;
int vf_posix_memalign(void **p,size_t alignment,size_t size)
{
  al_size=size; al_align=alignment;
  vf_assert(alignment >= sizeof(void *) && (alignment & (alignment-1)) == 0,"alignment is a power of two");
  if (arenas == 0)
    {
      /* the record that describes the memory */
      *p=arena[arenas++]=&record; heap_live++;
      vf_assume(size <= sizeof(record));
      return(0);
    }
  if (vf_bool())
    return(ENOMEM);
  *p=arena[arenas++]=blob; heap_live++;
  return(0);
}
static int freed_aligned;
void vf_free2(void *p)
{
  vf_assert(p == arena[0] || p == arena[1],"only aligned memory is freed");
  heap_live--;
}
static char mapped[8], heaped[8];
void *MapBlob(int file,const MapMode mode,const WizardOffsetType offset,const size_t length)
{
  if (vf_bool())
    return(NULL);
  map_live++; map_len=length;
  return(mapped);
}
WizardBooleanType UnmapBlob(void *map,const size_t length)
{
  vf_assert(map == mapped && map_live == 1 && length == map_len,"the mapped region is unmapped as it was mapped");
  map_live--;
  return(WizardTrue);
}
int AcquireUniqueFileResource(const char *path,char *filename,ExceptionInfo *e)
{
  if (vf_bool())
    return(-1);
  filename[0]='f'; filename[1]=0;
  file_live++; file_open++;
  return(7);
}
WizardBooleanType RelinquishUniqueFileResource(const char *path,const WizardBooleanType trash)
{
  vf_assert(path[0] == 'f' && path[1] == 0 && file_live == 1,"the backing file is released");
  file_live--;
  return(WizardTrue);
}
int vf_close(int f) { vf_assert(f == 7 && file_open == 1,"the backing file is closed once"); file_open--; return(0); }
off_t vf_lseek(int f,off_t o,int w) { return(vf_bool() ? o : (off_t) -1); }
ssize_t vf_write(int f,const void *p,size_t n) { return(vf_bool() ? (ssize_t) n : -1); }
static WizardSizeType used[8];
WizardBooleanType AcquireWizardResource(const ResourceType type,const WizardSizeType size)
{
  if (vf_bool())
    return(WizardFalse);
  used[type]+=size;
  return(WizardTrue);
}
void RelinquishWizardResource(const ResourceType type,const WizardSizeType size)
{
  vf_assert(used[type] >= size,"only granted resources are relinquished");
  used[type]-=size;
}
static void *heap_acquire(size_t n)
{
  if (vf_bool())
    return(NULL);
  asked=n; heap_live++; heap_ptr=heaped;
  return(heaped);
}
static void heap_free(void *p)
{
  vf_assert(p == heaped && heap_ptr == heaped,"heap block is released by the heap");
  heap_ptr=NULL; heap_live--;
}
static WizardSizeType total(void)
{
  WizardSizeType t=0; int i;
  for (i=0; i < 8; i++)
    t+=used[i];
  return(t);
}
#ifdef QUANTUM
void h_virtual(void)
{
  size_t count=vf_u8(), quantum=QUANTUM, length; MemoryInfo *m; void *p; ExceptionInfo e;
  vf_assume(count != 0);
  SetWizardMemoryMethods(heap_acquire,rec_resize,heap_free);
  m=AcquireVirtualMemory(count,quantum,&e);
  vf_assert(file_open == 0,"no descriptor is left open");
  if (m != NULL)
    {
      p=GetVirtualMemoryBlob(m);
      length=count*quantum;
      if (p == mapped)
        vf_assert(map_live == 1 && map_len >= length && heap_live == 1,"mapped memory is large enough");
      else if (p == heaped)
        vf_assert(asked >= length && map_live == 0 && heap_live == 2 && total() == 0,"heap memory is large enough");
      else
        vf_assert(p == arena[1] && al_size >= length && heap_live == 2 && map_live == 0,"aligned memory is large enough");
      if (p != heaped)
        vf_assert(total() >= length,"memory is accounted");
      m=RelinquishVirtualMemory(m);
    }
  vf_assert(m == NULL && heap_live == 0 && map_live == 0 && file_live == 0,"everything is released exactly once");
  vf_assert(total() == 0,"accounts return to their previous values");
  vf_reach("end");
}
#endif
void h_aligned(void)
{
  size_t count=pick_count(), quantum=pick_quantum(); void *p;
  arenas=1;
  p=AcquireAlignedMemory(count,quantum);
  vf_assert(p == NULL || (!too_big(count,quantum) && al_size >= count*quantum && al_align >= 64),"aligned block is large enough");
  vf_reach("end");
}
#endif
/* copying handles overlap, filling fills */
void h_copy(void)
{
  unsigned char b[24], o[24]; size_t i, s=vf_small(0,12), d=vf_small(0,12);
#ifndef SIZE
#define SIZE 8
#endif
  vf_bytes(b,24);
  memcpy(o,b,24);
  vf_assert(CopyWizardMemory(b+d,b+s,SIZE) == b+d,"copy returns the destination");
  for (i=0; i < 24; i++)
    vf_assert(b[i] == (i >= d && i < d+SIZE ? o[i-d+s] : o[i]),"copied bytes");
  memcpy(o,b,24);
  vf_assert(ResetWizardMemory(b+d,SIZE+3,SIZE) == b+d,"reset returns the block");
  for (i=0; i < 24; i++)
    vf_assert(b[i] == (i >= d && i < d+SIZE ? SIZE+3 : o[i]),"reset bytes");
  vf_reach("end");
}
