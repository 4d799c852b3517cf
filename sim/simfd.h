#ifndef SIMFD_H
#define SIMFD_H
#include <stdint.h>
#define SIM_MAXFD 1200
enum { FD_FREE, FD_FILE, FD_CAP, FD_NULL, FD_SOCK };
typedef struct { int kind, refs; struct Ino *ino; int64_t off; int flags; size_t wrote; void *sock; } XFd;
extern XFd simfds[SIM_MAXFD];
int simfd_new(int kind); XFd *simfd_get(int fd);
void *sim_memcpy(void*,const void*,unsigned long);
#endif
