#pragma redefine_extname pread px_pread
#pragma redefine_extname pwrite px_pwrite
#pragma redefine_extname fsync px_fsync
#pragma redefine_extname fdatasync px_fdatasync
#pragma redefine_extname ftruncate px_ftruncate
#pragma redefine_extname close px_close
#include_next <unistd.h>
