#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_MEMORY_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define LT_OBJDIR ".libs/"
#define MONITOR_CLIENT_SIGNALS_LIST 
#define MONITOR_CONFIG_SHOOTDOWN_SIGNAL 0
#define MONITOR_PTHREAD_EQUAL_IS_FCN 1
#define MONITOR_USE_DLOPEN 1
#define MONITOR_USE_FORK 1
#define MONITOR_USE_MPI 1
#define MONITOR_USE_PTHREADS 1
#define MONITOR_USE_SIGNALS 1
#define PACKAGE "libmonitor"
#define PACKAGE_BUGREPORT "hpctoolkit-forum@rice.edu"
#define PACKAGE_NAME "libmonitor"
#define PACKAGE_STRING "libmonitor 0.x"
#define PACKAGE_TARNAME "libmonitor"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.x"
#define SIZEOF_VOID_P 8
#define STDC_HEADERS 1
#define SVN_REVISION 0
#define VERSION "0.x"
