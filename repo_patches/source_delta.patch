From 90a50ba80a96858ee4cf519383c8b497d732efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 01/20] fix: keep memory map XML pointer valid across
 MemorySim_GetMemoryMapXML() calls

mriCore fetches the XML pointer and then asks for its size, which called
realloc() again and left the first pointer dangling.
---
 libCrashDebug/src/MemorySim.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..423d9d1 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -120,6 +120,7 @@ struct MemorySim
     MemoryRegion*  pHeadRegion;
     MemoryRegion*  pTailRegion;
     char*          pMemoryMapXML;
+    size_t         memoryMapXMLAlloc;
     int            watchpointEncountered;
 };
 
@@ -153,6 +154,7 @@ void MemorySim_Uninit(IMemory* pMemory)
 
     free(pThis->pMemoryMapXML);
     pThis->pMemoryMapXML = NULL;
+    pThis->memoryMapXMLAlloc = 0;
 }
 
 static void freeRegion(MemoryRegion* pRegion)
@@ -383,10 +385,16 @@ static size_t countRegions(MemorySim* pThis)
 
 static void allocateMemoryMapXML(MemorySim* pThis, size_t allocSize)
 {
-    char* pRealloc = realloc(pThis->pMemoryMapXML, allocSize);
+    char* pRealloc = NULL;
+
+    /* Only reallocate when the XML text has to grow so that the pointer returned by an earlier call stays valid. */
+    if (allocSize <= pThis->memoryMapXMLAlloc)
+        return;
+    pRealloc = realloc(pThis->pMemoryMapXML, allocSize);
     if (!pRealloc)
         __throw(outOfMemoryException);
     pThis->pMemoryMapXML = pRealloc;
+    pThis->memoryMapXMLAlloc = allocSize;
 }
 
 static void appendMemoryMapXmlHeader(MemorySim* pThis, SizedBuffer* pBuffer)
-- 
2.43.0


From cc6fe56fead8eb1ec6f7c9ede7a809b4c7b863c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 02/20] fix: reject ELF entries whose offset + size wraps
 around 32 bits

The sum was computed in 32 bits so a large p_filesz passed the bounds check
and the loader then read beyond the end of the ELF file's buffer.
---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..cb1f9cd 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From 511fa1d03a7209f2db00650e8631aff69d3936c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 03/20] fix: treat end of file on stdin as an error in
 Console_ReadStdIn()

read() returns 0 once GDB closes its end of the pipe.  That was returned as a
NUL character, leaving CrashDebug spinning forever after GDB went away.
---
 main/MockDefaults.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index c5a29df..22338b1 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -108,7 +108,7 @@ int Console_ReadStdIn()
     char    c = 0;
 
     result = read(STDIN_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != sizeof(c))
         __throw(fileException);
     return c;
 }
-- 
2.43.0


From 275e64bc846ee847c05cd56428e1aff8fdd17963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 04/20] fix: translate redirect address before saving it in
 MemorySim_CreateAlias()

An alias which redirects to another alias kept the untranslated address so
accesses through it used an offset outside of the region's data.
---
 libCrashDebug/src/MemorySim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 423d9d1..3a1ae25 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -218,8 +218,8 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
         pRegion->baseAddress = aliasAddress;
-        pRegion->redirectAddress = redirectAddress;
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
+        pRegion->redirectAddress = redirectAddress;
         uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
-- 
2.43.0


From 4acf271b6117ea442582e54d9992a0e48e4582e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 05/20] fix: don't invent memory words for GDB log lines with
 fewer than 4 values

Text which isn't a number (newline, GDB error message, source code) was
converted to words of 0 and stored as though it was the contents of RAM.
---
 libCrashDebug/src/GdbLogParser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..a5fbddd 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -240,6 +240,8 @@ static ParseResults parseMemoryLine(const char* pLine)
     pLine = parseAddress(&results, pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
         pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    if (results.valueCount == 0)
+        results.type = TYPE_OTHER;
     return results;
 }
 
@@ -299,8 +301,13 @@ static const char* skipSymbol(const char* pLine)
 
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
-    char* pNext = NULL;
-    pResults->values[pResults->valueCount++] = strtoul(pLine, &pNext, 0);
+    char*    pNext = NULL;
+    uint32_t value = strtoul(pLine, &pNext, 0);
+
+    // The rest of the line isn't a value (ie. just the newline or an error message from GDB) so don't make one up.
+    if (pNext == pLine)
+        return pLine + strlen(pLine);
+    pResults->values[pResults->valueCount++] = value;
     return pNext;
 }
 
-- 
2.43.0


From 3c5853bb76e9bdf9685e9569042f484a60f882cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 06/20] fix: parse addresses and symbols of GDB log lines by
 their delimiters

Symbols with unbalanced angle brackets (ie. operator<) hid the values which
followed and stack frame lines were mistaken for memory dump lines.
---
 libCrashDebug/src/GdbLogParser.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index a5fbddd..ba6f111 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -248,8 +248,19 @@ static ParseResults parseMemoryLine(const char* pLine)
 static const char* parseAddress(ParseResults* pResults, const char* pLine)
 {
     pResults->address = strtoul(pLine, NULL, 0);
-    // Skip 0xXXXXXXXX: address formatted string.
-    return pLine + (2 + 8 + 1);
+    // Skip 0xXXXXXXXX address formatted string.
+    pLine += 2 + 8;
+    if (*pLine == ':')
+        return pLine + 1;
+    // A symbol can contain whitespace and unbalanced angle brackets (ie. operator<) but it always ends with ">:".
+    if (*pLine == ' ' && pLine[1] == '<')
+    {
+        while (*pLine && !(pLine[0] == '>' && pLine[1] == ':' && isspace(pLine[2])))
+            pLine++;
+        return *pLine ? pLine + 2 : pLine;
+    }
+    // The address isn't followed by the contents of memory (ie. it is the start of a stack frame description).
+    return pLine + strlen(pLine);
 }
 
 static int areMoreValuesToParseOnLine(const ParseResults* pResults, const char* pLine)
-- 
2.43.0


From adb9b93c1ae2c709cf844a3cb4c9a893f5c63983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 07/20] fix: report which invalid digit was found in
 CrashCatcher hex dump

The dump was rejected with an empty error message.
---
 libCrashDebug/src/CrashCatcherDump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 7baf723..96c33b4 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -306,6 +306,6 @@ static uint8_t nibbleDigitToVal(char hexDigit)
     if (hexDigit >= 'A' && hexDigit <= 'F')
         return hexDigit - 'A' + 10;
 
-    __throw(fileFormatException);
+    __throw_msg(fileFormatException, "The dump file contained an invalid hexadecimal digit of 0x%02X.", (uint8_t)hexDigit);
     return 0;
 }
-- 
2.43.0


From 087139c83eb8f47b60367c23983793306dc44d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 08/20] fix: report which address of GDB log couldn't be loaded

A log which contains the read-only image was rejected with an empty error message.
---
 libCrashDebug/src/GdbLogParser.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ba6f111..f0be3bb 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -169,8 +169,15 @@ static void secondPassHandler(ParseObject* pObject, const ParseResults* pParseRe
     uint32_t i;
     if (pParseResults->type != TYPE_MEMORY)
         return;
-    for (i = 0 ; i < pParseResults->valueCount ; i++)
-        IMemory_Write32(pObject->pMem, pParseResults->address + i * sizeof(uint32_t), pParseResults->values[i]);
+    __try
+    {
+        for (i = 0 ; i < pParseResults->valueCount ; i++)
+            IMemory_Write32(pObject->pMem, pParseResults->address + i * sizeof(uint32_t), pParseResults->values[i]);
+    }
+    __catch
+    {
+        __throw_msg(getExceptionCode(), "The GDB log failed to load memory at 0x%08X.", pParseResults->address);
+    }
 }
 
 static void parseLines(IMemory* pMem,
-- 
2.43.0


From 345a65e0f764dd835bfec2ab118d00f4d59f1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 09/20] fix: make every region at address read-only in
 MemorySim_MakeRegionReadOnly()

When ELF entries overlap, the second was left writable and the read counts of
the first were leaked.
---
 libCrashDebug/src/MemorySim.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 3a1ae25..b9c85b5 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -243,8 +243,16 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
-    pRegion->isReadOnly = 1;
-    allocateReadCountArrayForReadOnlyRegion(pRegion);
+
+    /* Regions can overlap (ie. ELF entries which share addresses) so handle each one which contains this address. */
+    for ( ; pRegion ; pRegion = pRegion->pNext)
+    {
+        if (pRegion->isAlias || pRegion->isReadOnly ||
+            baseAddress < pRegion->baseAddress || baseAddress - pRegion->baseAddress >= pRegion->size)
+            continue;
+        allocateReadCountArrayForReadOnlyRegion(pRegion);
+        pRegion->isReadOnly = 1;
+    }
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
-- 
2.43.0


From 56803525d72af6ddc17fb7b7cb821826360dc49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 10/20] fix: handle watchpoints and breakpoints which end at
 top of address space

The end address wrapped to 0 so that they were never hit.
---
 libCrashDebug/src/MemorySim.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index b9c85b5..f675b23 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -78,7 +78,7 @@ static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, A
 static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type);
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress);
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress);
 
 static uint32_t read32(IMemory* pMemory, uint32_t address);
 static uint16_t read16(IMemory* pMemory, uint32_t address);
@@ -93,7 +93,7 @@ struct Watchpoint
 {
     WatchpointType type;
     uint32_t       startAddress;
-    uint32_t       endAddress;
+    uint64_t       endAddress;      /* Exclusive, so it is one past 32 bits for a range at the top of memory. */
 
 };
 
@@ -475,7 +475,7 @@ __throws void MemorySim_SetHardwareBreakpoint(IMemory* pMemory, uint32_t address
 static void setWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -552,7 +552,7 @@ __throws void MemorySim_ClearHardwareBreakpoint(IMemory* pMemory, uint32_t addre
 static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -638,7 +638,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type)
 {
-    uint32_t endAddress = address + size;
+    uint64_t endAddress = (uint64_t)address + size;
     uint32_t i;
 
     for (i = 0 ; i < pRegion->watchpointCount ; i++)
@@ -663,7 +663,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
     }
 }
 
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress)
 {
     return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
 }
-- 
2.43.0


From 7e75fd2974ccf23eeceb6778f114d2860be52d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 11/20] fix: reject CrashCatcher hex dump which ends in the
 middle of a byte

A dump truncated after the first digit of a memory region header was accepted.
---
 libCrashDebug/src/CrashCatcherDump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 96c33b4..0529580 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -275,7 +275,7 @@ static int hexRead(Object* pObject, void* pBuffer, size_t bytesToRead)
             break;
         result = readNextCharacterSkippingNewLines(pObject, &loNibble);
         if (result != 1)
-            break;
+            __throw_msg(fileFormatException, "The dump file ended in the middle of a hexadecimal byte.");
         *pCurr++ = (nibbleDigitToVal(hiNibble) << 4) | nibbleDigitToVal(loNibble);
         bytesRead++;
     }
-- 
2.43.0


From a10dd8e24d518db8a75324e1408baa46c371b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 12/20] fix: fail if dump file's header can't be read

A dump which couldn't be read (ie. a directory) was treated as an empty GDB log.
---
 libCrashDebug/src/CrashDebugCommandLine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 87a74a6..0ecf2a7 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -329,12 +329,16 @@ static void loadDumpFile(CrashDebugCommandLine* pThis)
 static DumpFileType getFileType(const char* pDumpFilename)
 {
     uint8_t fileHeader[4] = { 0, 0, 0, 0 };
+    int     readFailed = FALSE;
 
     FILE*   pFile = fopen(pDumpFilename, "rb");
     if (!pFile)
         __throw_msg(fileException, "Failed to open \"%s\".", pDumpFilename);
     fread(fileHeader, 1, sizeof(fileHeader), pFile);
+    readFailed = ferror(pFile);
     fclose(pFile);
+    if (readFailed)
+        __throw_msg(fileException, "Failed to read \"%s\".", pDumpFilename);
 
     if (hasBinaryCrashCatcherSignature(fileHeader))
         return CRASH_CATCHER_BIN;
-- 
2.43.0


From 57175850984d1a99ffbe001e8e776a1fa1508129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 13/20] fix: don't treat CrashCatcher dump read error as end of
 file

A read error at the beginning of a memory region header silently dropped that
region and all those that followed.
---
 libCrashDebug/src/CrashCatcherDump.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 0529580..fc26778 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -190,6 +190,8 @@ static int readNextMemoryRegion(Object* pObject)
     bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
     if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
         __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
+    else if (ferror(pObject->pFile))
+        __throw_msg(fileException, "Failed to read memory region header from the dump file.");
     else if (bytesRead == 0)
         return TRUE;
     else if (bytesRead != sizeof(regionOrSentinel.region))
-- 
2.43.0


From 63cbff4e1f945ea30fcfd6b7875841c53238c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 14/20] fix: don't join top of memory to address 0 when loading
 GDB log

The next expected address wrapped to 0 so a log of memory up to 0xFFFFFFFF
followed by memory at 0x00000000 was rejected.
---
 libCrashDebug/src/GdbLogParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index f0be3bb..f7f4979 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -25,7 +25,7 @@ typedef struct ParseObject
     RegisterContext* pContext;
     uint32_t         regionStart;
     uint32_t         regionSize;
-    uint32_t         nextExpectedAddress;
+    uint64_t         nextExpectedAddress;
     char             lineText[1024];
 } ParseObject;
 
@@ -148,7 +148,7 @@ static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pPa
         pObject->regionSize = 0;
     }
     pObject->regionSize += pParseResults->valueCount * sizeof(uint32_t);
-    pObject->nextExpectedAddress = pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
+    pObject->nextExpectedAddress = (uint64_t)pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
 }
 
 static void firstPassRegisterHandler(ParseObject* pObject, const ParseResults* pParseResults)
-- 
2.43.0


From 9667655fc2798ef31e80cf2c08dad200d4263209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 15/20] fix: forget seeks which were still to pass in
 fseekRestore()

---
 libmocks/src/FileFailureInject.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmocks/src/FileFailureInject.c b/libmocks/src/FileFailureInject.c
index 491aa35..3968ac8 100644
--- a/libmocks/src/FileFailureInject.c
+++ b/libmocks/src/FileFailureInject.c
@@ -107,6 +107,7 @@ void fseekSetCallsBeforeFailure(int callCountToAllowBeforeFailing)
 void fseekRestore(void)
 {
     hook_fseek = fseek;
+    g_fseekCallsToPass = 0;
 }
 
 
-- 
2.43.0


From 56adf69f78f0c8ccb84549be7dc16475559d4974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 16/20] fix: Use all 9 bits of the exception number

Exceptions 256 and up (external interrupts 240 and up) were taken for the one
256 lower, so that for example interrupt 243 was reported to GDB as a hard
fault.
---
 libCrashDebug/src/mriPlatform.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/mriPlatform.c b/libCrashDebug/src/mriPlatform.c
index 8b0ce10..3260f1f 100644
--- a/libCrashDebug/src/mriPlatform.c
+++ b/libCrashDebug/src/mriPlatform.c
@@ -349,7 +349,8 @@ uint8_t Platform_DetermineCauseOfException(void)
 
 static uint32_t getCurrentlyExecutingExceptionNumber(void)
 {
-    return (g_pContext->exceptionPSR & 0xFF);
+    /* The exception number is found in the lower 9 bits of the PSR. */
+    return (g_pContext->exceptionPSR & 0x1FF);
 }
 
 void Platform_DisplayFaultCauseToGdbConsole(void)
-- 
2.43.0


From 920d80bed442f2488c06b58f5becacce1a43e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 17/20] fix: a lost connection while the fault address is shown
 ends the session

The guarded blocks around the MMFAR and BFAR reads also covered the sending
of the address to GDB, so that a failed read or write of the connection in
the middle of it was swallowed and the program went on sending.
---
 libCrashDebug/src/mriPlatform.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/mriPlatform.c b/libCrashDebug/src/mriPlatform.c
index 3260f1f..9714636 100644
--- a/libCrashDebug/src/mriPlatform.c
+++ b/libCrashDebug/src/mriPlatform.c
@@ -434,15 +434,23 @@ static void displayMemFaultCauseToGdbConsole(void)
 
     if (memManageFaultStatusRegister & MMARValidBit)
     {
+        volatile uint32_t memManageFaultAddressRegister = 0;
+        volatile int      wasRead = FALSE;
+
+        /* Only a failed read is to be ignored here and not a failure to send to GDB. */
         __try
         {
-            uint32_t memManageFaultAddressRegister = IMemory_Read32(g_pMemory, MMFAR);
-            WriteStringToGdbConsole("\n    Fault Address: ");
-            WriteHexValueToGdbConsole(memManageFaultAddressRegister);
+            memManageFaultAddressRegister = IMemory_Read32(g_pMemory, MMFAR);
+            wasRead = TRUE;
         }
         __catch
         {
         }
+        if (wasRead)
+        {
+            WriteStringToGdbConsole("\n    Fault Address: ");
+            WriteHexValueToGdbConsole(memManageFaultAddressRegister);
+        }
     }
     if (memManageFaultStatusRegister & FPLazyStatePreservationBit)
         WriteStringToGdbConsole("\n    FP Lazy Preservation");
@@ -482,15 +490,23 @@ static void displayBusFaultCauseToGdbConsole(void)
 
     if (busFaultStatusRegister & BFARValidBit)
     {
+        volatile uint32_t busFaultAddressRegister = 0;
+        volatile int      wasRead = FALSE;
+
+        /* Only a failed read is to be ignored here and not a failure to send to GDB. */
         __try
         {
-            uint32_t busFaultAddressRegister = IMemory_Read32(g_pMemory, BFAR);
-            WriteStringToGdbConsole("\n    Fault Address: ");
-            WriteHexValueToGdbConsole(busFaultAddressRegister);
+            busFaultAddressRegister = IMemory_Read32(g_pMemory, BFAR);
+            wasRead = TRUE;
         }
         __catch
         {
         }
+        if (wasRead)
+        {
+            WriteStringToGdbConsole("\n    Fault Address: ");
+            WriteHexValueToGdbConsole(busFaultAddressRegister);
+        }
     }
     if (busFaultStatusRegister & FPLazyStatePreservationBit)
         WriteStringToGdbConsole("\n    FP Lazy Preservation");
-- 
2.43.0


From 99b55c3d0f85f6b05e8bf7624feae6df55bb6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 18/20] fix: say what is wrong when memory of ELF image or GDB
 log can't be created

The error line was empty when an ELF entry or the memory of a GDB log
didn't fit memory or couldn't be allocated.
---
 libCrashDebug/src/ElfLoad.c      | 16 +++++++++++++---
 libCrashDebug/src/GdbLogParser.c | 19 +++++++++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index cb1f9cd..7ab5355 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -136,9 +136,19 @@ static void loadIfFlashLoadableEntry(IMemory* pMemory, LoadObject* pObject, cons
                     "ELF failed to load entry from file at offsets %d to %d.",
                     pPgmHeader->p_offset, pPgmHeader->p_offset + pPgmHeader->p_filesz - 1);
     }
-    MemorySim_CreateRegion(pMemory, pPgmHeader->p_paddr, pPgmHeader->p_filesz);
-    MemorySim_LoadFromFlashImage(pMemory, pPgmHeader->p_paddr, pData, pPgmHeader->p_filesz);
-    MemorySim_MakeRegionReadOnly(pMemory, pPgmHeader->p_paddr);
+
+    __try
+    {
+        MemorySim_CreateRegion(pMemory, pPgmHeader->p_paddr, pPgmHeader->p_filesz);
+        MemorySim_LoadFromFlashImage(pMemory, pPgmHeader->p_paddr, pData, pPgmHeader->p_filesz);
+        MemorySim_MakeRegionReadOnly(pMemory, pPgmHeader->p_paddr);
+    }
+    __catch
+    {
+        __throw_msg(getExceptionCode(),
+                    "ELF failed to load %u byte entry into memory region at address 0x%08X.",
+                    pPgmHeader->p_filesz, pPgmHeader->p_paddr);
+    }
     pObject->entryLoadCount++;
 }
 
diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index f7f4979..27cd233 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -60,6 +60,7 @@ static FILE* openFileAndThrowOnError(const char* pLogFilename);
 static void initPSPandMSP(RegisterContext* pContext);
 static void firstPassHandler(ParseObject* pObject, const ParseResults* pParseResults);
 static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pParseResults);
+static void createRegion(ParseObject* pObject);
 static void firstPassRegisterHandler(ParseObject* pObject, const ParseResults* pParseResults);
 static int isFloatingPointRegister(size_t registerOffset);
 static void secondPassHandler(ParseObject* pObject, const ParseResults* pParseResults);
@@ -143,7 +144,7 @@ static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pPa
     if (pParseResults->address != pObject->nextExpectedAddress)
     {
         if (pObject->regionStart != 0xFFFFFFFF)
-            MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
+            createRegion(pObject);
         pObject->regionStart = pParseResults->address;
         pObject->regionSize = 0;
     }
@@ -151,6 +152,20 @@ static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pPa
     pObject->nextExpectedAddress = (uint64_t)pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
 }
 
+static void createRegion(ParseObject* pObject)
+{
+    __try
+    {
+        MemorySim_CreateRegion(pObject->pMem, pObject->regionStart, pObject->regionSize);
+    }
+    __catch
+    {
+        __throw_msg(getExceptionCode(),
+                    "Failed to create %u byte memory region at 0x%08X for GDB log.",
+                    pObject->regionSize, pObject->regionStart);
+    }
+}
+
 static void firstPassRegisterHandler(ParseObject* pObject, const ParseResults* pParseResults)
 {
     if (isFloatingPointRegister(pParseResults->registerOffset))
@@ -198,7 +213,7 @@ static void parseLines(IMemory* pMem,
         passHandler(&object, &parseResults);
     }
     if (object.regionSize != 0)
-        MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);
+        createRegion(&object);
 }
 
 static ParseResults parseLine(const char* pLine)
-- 
2.43.0


From 85b07f94dd9b0cd46c42f38d169633fd786fb9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:22 +0000
Subject: [PATCH 19/20] fix: refuse memory regions which run past the end of
 the address space

Loading such an ELF entry, dump region or GDB log block wrapped around to
address 0 and silently overwrote the image or RAM which was already there.
---
 libCrashDebug/src/MemorySim.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index f675b23..b0052d9 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -174,6 +174,10 @@ void MemorySim_CreateRegion(IMemory* pMemory, uint32_t baseAddress, uint32_t siz
     MemorySim*             pThis = (MemorySim*)pMemory;
     MemoryRegion* volatile pRegion = NULL;
 
+    /* Addresses past the end of the 32-bit address space would wrap around into other regions. */
+    if ((uint64_t)baseAddress + size > 0x100000000ULL)
+        __throw(busErrorException);
+
     __try
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
-- 
2.43.0


From 0d63f2e7edfd8fc1b99ea0736061048463749bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:01 +0000
Subject: [PATCH 20/20] fix: refuse raw binary images larger than the address
 space

The 32-bit sizes of MemorySim truncated the size of an image of 4 GB or more, so that only its first few bytes were
loaded and a session was served with them.
---
 libCrashDebug/src/CrashDebugCommandLine.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 0ecf2a7..cf2c997 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -300,6 +300,9 @@ static void loadBinFile(CrashDebugCommandLine* pThis, volatile FileData* pFileDa
 {
     __try
     {
+        /* Sizes are 32-bit in the simulator, where those of larger files would be truncated. */
+        if ((uint64_t)pFileData->dataSize > 0xFFFFFFFF)
+            __throw(busErrorException);
         MemorySim_CreateRegion(pThis->pMemory, pThis->baseAddress, pFileData->dataSize);
         MemorySim_LoadFromFlashImage(pThis->pMemory, pThis->baseAddress, pFileData->pData, pFileData->dataSize);
         MemorySim_MakeRegionReadOnly(pThis->pMemory, pThis->baseAddress);
-- 
2.43.0

