/* Stand-in for mri/core/packet.h */
#ifndef _PACKET_H_
#define _PACKET_H_
#include "buffer.h"
typedef struct Packet { Buffer* pBuffer; char lastChar; unsigned char calculatedChecksum; unsigned char expectedChecksum; } Packet;
#ifdef __cplusplus
extern "C" {
#endif
void __mriPacket_GetFromGDB(Packet*, Buffer*);
void __mriPacket_SendToGDB(Packet*, Buffer*);
#ifdef __cplusplus
}
#endif
#define Packet_GetFromGDB __mriPacket_GetFromGDB
#define Packet_SendToGDB __mriPacket_SendToGDB
#endif
