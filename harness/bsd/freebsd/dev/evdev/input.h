#include <sys/ioctl.h>
#define EVIOCREVOKE _IOW('E', 0x91, int)
#define EVIOCGRAB _IOW('E', 0x90, int)
