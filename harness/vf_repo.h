/* includes the real translation unit of the library with allocation redirected to the wrappers */
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#include <sph-sp/main.c>
