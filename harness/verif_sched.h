/* interface of verif_sched.c */
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <stdio.h>
void sched_setup(const char* text);
void sched_report(FILE* out);
#endif
