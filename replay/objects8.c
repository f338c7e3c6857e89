#define MODE 8
#include "objects.c"
