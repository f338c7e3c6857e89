#define MODE 7
#include "objects.c"
