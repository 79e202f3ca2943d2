#pragma redefine_extname fstat px_fstat
#pragma redefine_extname stat px_stat
#include_next <sys/stat.h>
