/* included first in the "portable" configurations: after the system headers the library
 * cannot see that compiler and processor are ones it has special code for */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#include <assert.h>
#include <math.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#ifdef DRIVER
#include <stdarg.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#endif
#undef __GNUC__
#undef __clang__
#undef __i386__
#undef __x86_64__
#undef __x86_64
#undef __amd64__
