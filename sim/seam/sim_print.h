/* Printing seam (OSQP_CUSTOM_PRINTING): output is captured into the event log. */
#ifndef SIM_PRINT_H
#define SIM_PRINT_H
#include <stdio.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
int sim_print(const char* fmt, ...);
#ifdef __cplusplus
}
#endif
#define c_print sim_print
#endif
