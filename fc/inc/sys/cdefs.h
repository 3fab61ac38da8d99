#ifndef SYS_CDEFS
#define SYS_CDEFS
#define __BEGIN_DECLS
#define __END_DECLS
#endif
