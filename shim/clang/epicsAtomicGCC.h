/* EPICS base reads its atomics with plain loads between barriers, which ThreadSanitizer takes for races. */
#ifndef SHIM_EPICSATOMICGCC_H
#define SHIM_EPICSATOMICGCC_H
#define EPICS_ATOMIC_GET_INTT
#define EPICS_ATOMIC_GET_SIZET
#define EPICS_ATOMIC_GET_PTRT
#define EPICS_ATOMIC_SET_INTT
#define EPICS_ATOMIC_SET_SIZET
#define EPICS_ATOMIC_SET_PTRT
#ifdef __cplusplus
extern "C" {
#endif
static __inline__ int epicsAtomicGetIntT ( const int * p ) { return __atomic_load_n(p, __ATOMIC_ACQUIRE); }
static __inline__ size_t epicsAtomicGetSizeT ( const size_t * p ) { return __atomic_load_n(p, __ATOMIC_ACQUIRE); }
static __inline__ EpicsAtomicPtrT epicsAtomicGetPtrT ( const EpicsAtomicPtrT * p ) { return __atomic_load_n(p, __ATOMIC_ACQUIRE); }
static __inline__ void epicsAtomicSetIntT ( int * p, int v ) { __atomic_store_n(p, v, __ATOMIC_RELEASE); }
static __inline__ void epicsAtomicSetSizeT ( size_t * p, size_t v ) { __atomic_store_n(p, v, __ATOMIC_RELEASE); }
static __inline__ void epicsAtomicSetPtrT ( EpicsAtomicPtrT * p, EpicsAtomicPtrT v ) { __atomic_store_n(p, v, __ATOMIC_RELEASE); }
#ifdef __cplusplus
}
#endif
#include_next <epicsAtomicGCC.h>
#endif
