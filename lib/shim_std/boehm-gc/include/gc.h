/* stands in for the empty boehm-gc submodule: the installed Boehm collector */
#include "/usr/include/gc.h"
