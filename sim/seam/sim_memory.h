/* Allocation seam (OSQP_CUSTOM_MEMORY): every c_malloc/... of the library ends in the simulator. */
#ifndef SIM_MEMORY_H
#define SIM_MEMORY_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* sim_malloc(size_t size);
void* sim_calloc(size_t num, size_t size);
void* sim_realloc(void* ptr, size_t size);
void  sim_free(void* ptr);
#ifdef __cplusplus
}
#endif
#define c_malloc  sim_malloc
#define c_calloc  sim_calloc
#define c_free    sim_free
#define c_realloc sim_realloc
#endif
