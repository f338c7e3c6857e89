#define MODE 9
#include "objects.c"
