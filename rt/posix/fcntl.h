// The system calls of Posix_File, renamed: the model is in harness/kernel.h
#pragma redefine_extname open px_open
#pragma redefine_extname fcntl px_fcntl
#include_next <fcntl.h>
