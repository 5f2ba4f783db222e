/* Declarations of the parts of KCP that udp/reliable_socket.h uses (KCP itself is not installed here).
   Only used to let the analyser parse that header; nothing is ever linked or run. */
#ifndef VP_STUB_IKCP_H
#define VP_STUB_IKCP_H
#include <stddef.h>
#include <sys/time.h>
typedef unsigned int IUINT32;
typedef long long IINT64;
struct IKCPCB {IUINT32 conv, mtu, nsnd_que, nrcv_que; void* user; int (*output)(const char*, int, struct IKCPCB*, void*);};
typedef struct IKCPCB ikcpcb;
extern "C" {
ikcpcb* ikcp_create(IUINT32 conv, void* user);
void ikcp_release(ikcpcb* kcp);
int ikcp_recv(ikcpcb* kcp, char* buffer, int len);
int ikcp_send(ikcpcb* kcp, const char* buffer, int len);
void ikcp_update(ikcpcb* kcp, IUINT32 current);
IUINT32 ikcp_check(const ikcpcb* kcp, IUINT32 current);
int ikcp_input(ikcpcb* kcp, const char* data, long size);
}
#endif
