/* Stand-in for mri/core/buffer.h */
#ifndef _BUFFER_H_
#define _BUFFER_H_
#include <stdint.h>
#include <stddef.h>
typedef struct Buffer { char* pStart; char* pEnd; char* pCurrent; } Buffer;
#ifdef __cplusplus
extern "C" {
#endif
void     __mriBuffer_Init(Buffer*, char*, size_t);
void     __mriBuffer_Reset(Buffer*);
void     __mriBuffer_SetEndOfBuffer(Buffer*);
size_t   __mriBuffer_BytesLeft(Buffer*);
size_t   __mriBuffer_GetLength(Buffer*);
char*    __mriBuffer_GetArray(Buffer*);
int      __mriBuffer_OverrunDetected(Buffer*);
void     __mriBuffer_WriteChar(Buffer*, char);
char     __mriBuffer_ReadChar(Buffer*);
void     __mriBuffer_WriteByteAsHex(Buffer*, uint8_t);
uint8_t  __mriBuffer_ReadByteAsHex(Buffer*);
void     __mriBuffer_WriteString(Buffer*, const char*);
void     __mriBuffer_WriteSizedString(Buffer*, const char*, size_t);
uint32_t __mriBuffer_ReadUIntegerAsHex(Buffer*);
void     __mriBuffer_WriteUIntegerAsHex(Buffer*, uint32_t);
int32_t  __mriBuffer_ReadIntegerAsHex(Buffer*);
void     __mriBuffer_WriteIntegerAsHex(Buffer*, int32_t);
int      __mriBuffer_IsNextCharEqualTo(Buffer*, char);
int      __mriBuffer_MatchesString(Buffer*, const char*, size_t);
#ifdef __cplusplus
}
#endif
#define Buffer_Init __mriBuffer_Init
#define Buffer_Reset __mriBuffer_Reset
#define Buffer_SetEndOfBuffer __mriBuffer_SetEndOfBuffer
#define Buffer_BytesLeft __mriBuffer_BytesLeft
#define Buffer_GetLength __mriBuffer_GetLength
#define Buffer_GetArray __mriBuffer_GetArray
#define Buffer_OverrunDetected __mriBuffer_OverrunDetected
#define Buffer_WriteChar __mriBuffer_WriteChar
#define Buffer_ReadChar __mriBuffer_ReadChar
#define Buffer_WriteByteAsHex __mriBuffer_WriteByteAsHex
#define Buffer_ReadByteAsHex __mriBuffer_ReadByteAsHex
#define Buffer_WriteString __mriBuffer_WriteString
#define Buffer_WriteSizedString __mriBuffer_WriteSizedString
#define Buffer_ReadUIntegerAsHex __mriBuffer_ReadUIntegerAsHex
#define Buffer_WriteUIntegerAsHex __mriBuffer_WriteUIntegerAsHex
#define Buffer_ReadIntegerAsHex __mriBuffer_ReadIntegerAsHex
#define Buffer_WriteIntegerAsHex __mriBuffer_WriteIntegerAsHex
#define Buffer_IsNextCharEqualTo __mriBuffer_IsNextCharEqualTo
#define Buffer_MatchesString __mriBuffer_MatchesString
#endif
