/* The numbers the three systems' headers define, as far as the sources use
 * them: given by us to both the code and the harness, so only the names count.
 * On Linux the code sees the real headers. */
#ifndef VF_PLAT_H
#define VF_PLAT_H
struct vt_mode { char mode, waitv; short relsig, acqsig, frsig; };
struct vt_stat { unsigned short v_active, v_signal, v_state; };
#define VT_AUTO 0
#define VT_PROCESS 1
#define VT_KERNEL 255
#define VT_SETMODE 0x7602
#define VT_GETMODE 0x7603
#define VT_RELDISP 0x7604
#define VT_FALSE 0
#define VT_TRUE 1
#define VT_ACKACQ 2
#define VT_ACTIVATE 0x7605
#define VT_WAITACTIVE 0x7606
#define VT_GETACTIVE 0x7607
#define VT_GETSTATE 0x7664
#define KDSKBMODE 0x4b07
#define KDGKBMODE 0x4b06
#define KDSETMODE 0x4b0a
#define KD_TEXT 0
#define KD_GRAPHICS 1
#define K_RAW 0
#define K_XLATE 1
#define K_CODE 2
#endif
