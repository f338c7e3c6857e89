#define MODE 6
#include "objects.c"
