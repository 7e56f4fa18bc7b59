// Stand-in, see windows.h.
#ifndef VERIF_FAKEWIN_WINAPIFAMILY_H
#define VERIF_FAKEWIN_WINAPIFAMILY_H
#define WINAPI_FAMILY_PC_APP 2
#define WINAPI_FAMILY_DESKTOP_APP 100
#ifndef WINAPI_FAMILY
# define WINAPI_FAMILY WINAPI_FAMILY_DESKTOP_APP
#endif
#define WINAPI_PARTITION_DESKTOP (WINAPI_FAMILY == WINAPI_FAMILY_DESKTOP_APP)
#define WINAPI_PARTITION_APP (WINAPI_FAMILY == WINAPI_FAMILY_DESKTOP_APP || WINAPI_FAMILY == WINAPI_FAMILY_PC_APP)
#define WINAPI_FAMILY_PARTITION(x) (x)
#endif
