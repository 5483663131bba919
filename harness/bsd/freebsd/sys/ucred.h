#ifndef VF_UCRED_H
#define VF_UCRED_H
#include <sys/types.h>
struct xucred { unsigned cr_version; uid_t cr_uid; short cr_ngroups; gid_t cr_groups[16]; pid_t cr_pid; };
#define LOCAL_PEERCRED 1
#endif
