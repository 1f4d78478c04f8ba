#define CHECK 1
#define DBLOG_DIR "/tmp"
#define HAVE_64BIT_GINT 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBM 1
#define HAVE_PTHREAD 1
/* #undef HAVE_RAPTOR */
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define LOCK_PROTO 2
#define LT_OBJDIR ".libs/"
#define PACKAGE "whitedb"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_NAME "WhiteDB"
#define PACKAGE_STRING "WhiteDB 0.8-alpha"
#define PACKAGE_TARNAME "whitedb"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.8-alpha"
/* #undef PTHREAD_CREATE_JOINABLE */
#define SIZEOF_PTRDIFF_T 8
#define STDC_HEADERS 1
#define STRHASH_SIZE 2
#define TTREE_CHAINED_NODES 1
#define TTREE_SINGLE_COMPARE 1
#define USE_BACKLINKING 1
#define USE_CHILD_DB 1
#define USE_DBLOG 1
#define USE_ERROR_CALLBACK 1
#define USE_INDEX_TEMPLATE 1
/* #undef USE_REASONER */
#define VERSION "0.8-alpha"
#define VERSION_MAJOR 0
#define VERSION_MINOR 8
#define VERSION_REV 0
#define YYTEXT_POINTER 1
