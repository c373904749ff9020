extern int errno;
#define ENOMEM 12
#define EINVAL 22
#define ERANGE 34
