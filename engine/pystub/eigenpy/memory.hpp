#ifndef VERIF_PYSTUB_EIGENPY_MEMORY_HH
#define VERIF_PYSTUB_EIGENPY_MEMORY_HH
#define EIGENPY_DEFINE_STRUCT_ALLOCATOR_SPECIALIZATION(T)
#endif
