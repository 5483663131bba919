#ifndef VF_UN_H
#define VF_UN_H
#include_next <sys/un.h>
#include <sys/types.h>
struct unpcbid { pid_t unp_pid; uid_t unp_euid; gid_t unp_egid; };
#define LOCAL_PEEREID 3
#endif
