/* What configure finds on this platform (glibc/Linux), so that the checks do not depend on
   a configured tree. */
#define HAVE_ARPA_INET_H 1
#define HAVE_ARPA_NAMESER_COMPAT_H 1
#define HAVE_ARPA_NAMESER_H 1
#define HAVE_DLFCN_H 1
#define HAVE_ENDIAN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_MADVISE 1
#define HAVE_MMAP 1
#define HAVE_MUNMAP 1
#define HAVE_NETINET_IN_H 1
#define HAVE_QSORT 1
#define HAVE_RESOLV_H 1
#define HAVE_RES_QUERY 1
#define HAVE_SECURE_GETENV 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_WCHAR_H 1
#define STDC_HEADERS 1
#define LIBLOC_DEFAULT_DATABASE_PATH "/var/lib/location/database.db"
#define LT_OBJDIR ".libs/"
#define PACKAGE "libloc"
#define PACKAGE_BUGREPORT "location@lists.ipfire.org"
#define PACKAGE_NAME "libloc"
#define PACKAGE_STRING "libloc 0.9.17"
#define PACKAGE_TARNAME "libloc"
#define PACKAGE_URL "https://location.ipfire.org/"
#define PACKAGE_VERSION "0.9.17"
#define VERSION "0.9.17"
#ifndef _ALL_SOURCE
# define _ALL_SOURCE 1
#endif
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
#ifndef _POSIX_PTHREAD_SEMANTICS
# define _POSIX_PTHREAD_SEMANTICS 1
#endif
