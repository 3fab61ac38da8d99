#ifndef EMV_UTILS_CONFIG_H
#define EMV_UTILS_CONFIG_H
/* stand-in for the generated configuration header */
#define EMV_UTILS_VERSION_STRING "vp"
#define HAVE_TIME_H
#include <time.h>
#ifndef TIME_UTC /* C11, missing from the analyser's headers */
#define TIME_UTC 1
int timespec_get(struct timespec* ts, int base);
#endif
#define HAVE_TIMESPEC_GET
#define MCC_JSON_INSTALL_PATH "mcc"
#endif
