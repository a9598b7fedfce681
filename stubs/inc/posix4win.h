#ifndef _POSIX4WIN_H_
#define _POSIX4WIN_H_
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#endif
