#ifndef VERIF_SHIM_RPMALLOC_H
#define VERIF_SHIM_RPMALLOC_H
static inline void rpmalloc_linker_reference(void) {}
#endif
