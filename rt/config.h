/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Define to 1 to include debug-code */
/* #undef DEBUG */

/* Define to 1 to not use curses */
/* #undef DISABLE_CURSES */

/* Define to 1 to disable gzip-support */
/* #undef DISABLE_GZIP */

/* Define to 1 to not use libxml2, only for development purposes */
/* #undef DISABLE_LIBXML2 */

/* Define to 1 to disable par-verification and repair */
/* #undef DISABLE_PARCHECK */

/* Define to 1 to not use TLS/SSL */
/* #undef DISABLE_TLS */

/* Define to 1 to enable unit and integration tests */
#define ENABLE_TESTS 1

/* Define to the name of macro which returns the name of function being
   compiled */
/* #undef FUNCTION_MACRO_NAME */

/* Define to 1 to create stacktrace on segmentation faults */
/* #undef HAVE_BACKTRACE */

/* Define to 1 if ctime_r takes 2 arguments */
#define HAVE_CTIME_R_2 1

/* Define to 1 if ctime_r takes 3 arguments */
/* #undef HAVE_CTIME_R_3 */

/* Define to 1 if you have the <curses.h> header file. */
/* #undef HAVE_CURSES_H */

/* define if the compiler supports basic C++14 syntax */
#define HAVE_CXX14 1

/* Define to 1 if you have the <endian.h> header file. */
#define HAVE_ENDIAN_H 1

/* Define to 1 if fdatasync is supported */
#define HAVE_FDATASYNC 1

/* Define to 1 if fseeko (and presumably ftello) exists and is declared. */
#define HAVE_FSEEKO 1

/* Define to 1 if F_FULLFSYNC is supported */
/* #undef HAVE_FULLFSYNC */

/* Define to 1 if getaddrinfo is supported */
#define HAVE_GETADDRINFO 1

/* Define to 1 if gethostbyname_r is supported */
/* #undef HAVE_GETHOSTBYNAME_R */

/* Define to 1 if gethostbyname_r takes 3 arguments */
/* #undef HAVE_GETHOSTBYNAME_R_3 */

/* Define to 1 if gethostbyname_r takes 5 arguments */
/* #undef HAVE_GETHOSTBYNAME_R_5 */

/* Define to 1 if gethostbyname_r takes 6 arguments */
/* #undef HAVE_GETHOSTBYNAME_R_6 */

/* Define to 1 if you have the `getopt' function. */
#define HAVE_GETOPT 1

/* Define to 1 if you have the <getopt.h> header file. */
#define HAVE_GETOPT_H 1

/* Define to 1 if getopt_long is supported */
#define HAVE_GETOPT_LONG 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 to use GnuTLS library for TLS/SSL-support. */
#define HAVE_LIBGNUTLS 1

/* Define to 1 if lockf is supported */
#define HAVE_LOCKF 1

/* Define to 1 if you have the <memory.h> header file. */
#define HAVE_MEMORY_H 1

/* Define to 1 if you have the <ncurses.h> header file. */
#define HAVE_NCURSES_H 1

/* Define to 1 if you have the <ncurses/ncurses.h> header file. */
/* #undef HAVE_NCURSES_NCURSES_H */

/* Define to 1 to use Nettle library for decryption. */
#define HAVE_NETTLE 1

/* Define to 1 to use OpenSSL library for TLS/SSL-support and decryption. */
/* #undef HAVE_OPENSSL */

/* Define to 1 if pthread_cancel is supported */
#define HAVE_PTHREAD_CANCEL 1

/* Define to 1 if you have the <regex.h> header file. */
#define HAVE_REGEX_H 1

/* Define to 1 if _SC_NPROCESSORS_ONLN is present in unistd.h */
#define HAVE_SC_NPROCESSORS_ONLN 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the `stricmp' function. */
/* #undef HAVE_STRICMP */

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/prctl.h> header file. */
#define HAVE_SYS_PRCTL_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if variadic macros are supported */
/* #undef HAVE_VARIADIC_MACROS */

/* Define to 1 if OpenSSL supports function "X509_check_host". */
/* #undef HAVE_X509_CHECK_HOST */

/* Define to 1 to exclude debug-code */
#define NDEBUG 1

/* Name of package */
#define PACKAGE "nzbget"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "hugbug@users.sourceforge.net"

/* Define to the full name of this package. */
#define PACKAGE_NAME "nzbget"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "nzbget 21.2-testing"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "nzbget"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "21.2-testing"

/* Define to 1 to install an empty signal handler for SIGCHLD */
#define SIGCHLD_HANDLER 1

/* Determine what socket length (socklen_t) data type is */
#define SOCKLEN_T socklen_t

/* Define to 1 if you have the ANSI C header files. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "21.2-testing"

/* Enable large inode numbers on Mac OS X 10.5.  */
#ifndef _DARWIN_USE_64_BIT_INODE
# define _DARWIN_USE_64_BIT_INODE 1
#endif

/* Number of bits in a file offset, on hosts where this is settable. */
/* #undef _FILE_OFFSET_BITS */

/* Define to 1 to make fseeko visible on some hosts (e.g. glibc 2.2). */
/* #undef _LARGEFILE_SOURCE */

/* Define for large files, on AIX-style hosts. */
/* #undef _LARGE_FILES */

/* Define to `unsigned int' if <sys/types.h> does not define. */
/* #undef size_t */
