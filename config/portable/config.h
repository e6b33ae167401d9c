/* The same without mmap(2) and memmem(3). */
#define HAVE_CXX11 1
#define HAVE_CXX14 1
#define HAVE_FCNTL_H 1
#define HAVE_GETPAGESIZE 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBTCL 1
#define HAVE_NETINET_IN_H 1
#define HAVE_SELECT 1
#define HAVE_STDARG_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_PARAM_H 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define L_ENDIAN 1
#define STDC_HEADERS 1
#define USE_SCRIPT_TCL 1
#include "config-sanity.h"
