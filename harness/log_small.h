/* sc_log.c with a small rotation limit */
#ifndef _XOPEN_SOURCE
#define _XOPEN_SOURCE 700
#endif
#include "sc_log.h"
#undef SC_LOG_FILE_SIZE
#define SC_LOG_FILE_SIZE LOGLIMIT
