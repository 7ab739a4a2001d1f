From 6a94f9438284b07203ebed18d8f0df95a6815614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 01/79] fix: striptrail read before the string and stripped
 trailing 8-bit characters

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..e8affd6 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -256,7 +256,7 @@ void striptrail(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--) 
 		str[c]=0;
 }
 
-- 
2.43.0


From f32e43f3599afc3004fc250b1922b29ee3070f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 02/79] fix: destination zone of netmail without INTL was taken
 from the packet's origin

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..cadf233 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -337,7 +337,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From 6e862d4acdd6e3a6aa6a5d43b8b0668066c11053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 03/79] fix: control lines were glued to the text when the last
 line had no CR

---
 src/crashmail/handle.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..22a3591 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -523,9 +523,20 @@ bool HandleEchomail(struct MemMessage *mm)
    struct AddNode  *tmpaddnode;
    struct RemNode  *tmpremnode;
    struct ConfigNode *tempcnode;
+   struct TextChunk *chunk;
 
    mm->Type=PKTS_ECHOMAIL;
 
+   /* Add CR if last line isn't complete, SEEN-BY and PATH will be added after it */
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(chunk && chunk->Length!=0)
+   {
+      if(chunk->Data[chunk->Length-1] != 13 && chunk->Data[chunk->Length-1] != 10)
+         mmAddBuf(&mm->TextChunks,"\x0d",1);
+   }
+
    /* Find orignode */
 
    for(tempcnode=(struct ConfigNode *)config.CNodeList.First;tempcnode;tempcnode=tempcnode->Next)
@@ -1165,7 +1176,7 @@ bool HandleNetmail(struct MemMessage *mm)
 
    /* Add CR if last line doesn't end with CR */
 
-   chunk=(struct TextChunk *)mm->TextChunks.First;
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
 
    if(chunk && chunk->Length!=0)
    {
-- 
2.43.0


From 3b0fdad168f6eb8bd82151d29372364631d2d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 04/79] fix: received netmail was counted twice in the
 statistics

---
 src/crashmail/handle.c | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 22a3591..c610cea 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1130,42 +1130,21 @@ bool HandleNetmail(struct MemMessage *mm)
 {
    struct Area       *tmparea;
    struct Aka        *aka;
-   struct ConfigNode *cnode,*pktcnode;
+   struct ConfigNode *cnode;
    struct ImportNode *inode;
    struct Route      *tmproute;
 	struct Node4D     n4d,Dest4D;
    struct PatternNode *patternnode;
    struct AreaFixName *areafixname;
-   struct TextChunk *tmpchunk,*chunk;
+   struct TextChunk *chunk;
    bool istext;
    char buf[400],buf2[200],buf3[200],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
    struct tm *tp;
-   uint32_t size;
 	uint8_t oldtype;
    bool headeronly;
 
-   /* Find orignode */
-
-   for(pktcnode=(struct ConfigNode *)config.CNodeList.First;pktcnode;pktcnode=pktcnode->Next)
-      if(Compare4D(&mm->PktOrig,&pktcnode->Node)==0) break;
-
-   /* Calculate size */
-
-   size=0;
-
-   for(tmpchunk=(struct TextChunk *)mm->TextChunks.First;tmpchunk;tmpchunk=tmpchunk->Next)
-      size+=tmpchunk->Length;
-
-   /* Statistics */
-
-   if((mm->Flags & MMFLAG_TOSSED) && pktcnode)
-   {
-      pktcnode->GotNetmails++;
-      pktcnode->GotNetmailBytes+=size;
-   }
-
    /* Set zones if they are zero */
 
    if(mm->DestNode.Zone == 0)
-- 
2.43.0


From c5fe0698a15eadf3f3b0f9816593f536cd11dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 05/79] fix: receipts were not marked as generated by CrashMail
 and could be answered again

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index c610cea..b7e1df3 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1023,7 +1023,7 @@ bool AnswerReceipt(struct MemMessage *mm)
 
    MakeFidoDate(time(NULL),tmpmm->DateTime);
 
-   mm->Flags |= MMFLAG_AUTOGEN;
+   tmpmm->Flags |= MMFLAG_AUTOGEN;
 
    MakeNetmailKludges(tmpmm);
 
-- 
2.43.0


From 0b8f7b3bfd7eec73e542f6bcf0a817f803a93e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 06/79] fix: echomail for the tag of a netmail area used import
 nodes as link nodes and crashed

---
 src/crashmail/handle.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index b7e1df3..445c097 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -579,6 +579,20 @@ bool HandleEchomail(struct MemMessage *mm)
       return(TRUE);
    }
 
+   /* Netmail areas have no nodes that receive them */
+
+   if(temparea->AreaType == AREATYPE_NETMAIL)
+   {
+      LogWrite(1,TOSSINGERR,"%s is a netmail area",mm->Area);
+
+      toss_bad++;
+
+      if(!WriteBad(mm,"Node does not receive this area"))
+         return(FALSE);
+
+      return(TRUE);
+   }
+
    /* Check if the node receives this area */
 
    if(!(mm->Flags & MMFLAG_EXPORTED) && !(mm->Flags & MMFLAG_NOSECURITY))
-- 
2.43.0


From 7a60bcbac124853ef40c8ef20771069465a2fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:40 +0000
Subject: [PATCH 07/79] fix: result of the seen-by check was carried over to
 areas with IGNORESEENBY

---
 src/crashmail/handle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 445c097..b513578 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -642,12 +642,13 @@ bool HandleEchomail(struct MemMessage *mm)
 
    /* Check if a node already is in seen-by */
 
+   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
+      temptnode->ConfigNode->IsInSeenBy=FALSE;
+
    if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
    {
       for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
       {
-         temptnode->ConfigNode->IsInSeenBy=FALSE;
-
          if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
             if(temptnode->ConfigNode->Node.Point==0)
                if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
-- 
2.43.0


From f653828da19002d5b21f9dc1495ce42d0245ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:12 +0000
Subject: [PATCH 08/79] fix: kludges were truncated when imported to JAM, a
 kludge without text or CR was mishandled

---
 src/crashmail/mb_jam.c | 53 +++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..cec747e 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -295,6 +295,16 @@ uint32_t jam_findflag(char *name)
    return(0);
 }
        
+/* Copies the len characters of a kludge line to dest (len+1 characters) */
+
+void jam_getkludge(char *dest,char *src,uint32_t len)
+{
+   memcpy(dest,src,len);
+   dest[len]=0;
+
+   stripleadtrail(dest);
+}
+
 bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 {
    struct TextChunk *chunk;
@@ -302,7 +312,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    struct jam_Area *ja;
    s_JamSubPacket*	SubPacket_PS;
    s_JamMsgHeader	Header_S;
-   char buf[100],newflags[100],flag[10];
+   char buf[100],*kbuf,*newflags,*flag;
    uint32_t c,f,jbcpos,linebegin,linelen;
    char *msgtext;
    uint32_t msgsize,msgpos;
@@ -343,6 +353,20 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
       }
    }
 
+   /* A kludge, what is left of a FLAGS kludge and a single flag. None of
+      them can be longer than the message text */
+
+   if(!(kbuf=osAlloc(3*(msgsize+2))))
+   {
+      LogWrite(1,SYSTEMERR,"Out of memory");
+      JAM_DelSubPacket(SubPacket_PS);
+      if(msgsize) osFree(msgtext);
+      return(FALSE);
+   }
+
+   newflags=&kbuf[msgsize+2];
+   flag=&newflags[msgsize+2];
+
    /* Do header */
 
    Header_S.DateProcessed = time(NULL);
@@ -465,34 +489,30 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
          {
             if(linelen>=5 && strncmp(&msgtext[linebegin],"\x01""PID:",5)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_PID,buf);
+               jam_getkludge(kbuf,&msgtext[linebegin+5],linelen-5);
+               jam_addfield(SubPacket_PS,JAMSFLD_PID,kbuf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""MSGID:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
+               jam_getkludge(kbuf,&msgtext[linebegin+7],linelen-7);
+               jam_addfield(SubPacket_PS,JAMSFLD_MSGID,kbuf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
+               jam_getkludge(kbuf,&msgtext[linebegin+7],linelen-7);
+               jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,kbuf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
-               stripleadtrail(buf);
+               jam_getkludge(kbuf,&msgtext[linebegin+7],linelen-7);
 
                jbcpos=0;
                newflags[0]=0;
 
-               while(jbstrcpy(flag,buf,10,&jbcpos))
+               while(jbstrcpy(flag,kbuf,msgsize+2,&jbcpos))
                {
                   uint32_t flagbit;
 
@@ -531,14 +551,15 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
             }
             else if(msgtext[linebegin]==1)
             {
-               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1));
-               stripleadtrail(buf);
-               jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,buf);
+               jam_getkludge(kbuf,&msgtext[linebegin+1],linelen-1);
+               jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,kbuf);
 					msgpos=linebegin;
             }
          }
       }
 
+   osFree(kbuf);
+
    /* Seen-by */
 
    if(config.cfg_Flags & CFG_IMPORTSEENBY)
-- 
2.43.0


From 552c1a1698b999be66e172ef87b0dde61239caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:12 +0000
Subject: [PATCH 09/79] fix: JAM_Crc32 indexed its table with negative numbers

---
 src/jamlib/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/crc32.c b/src/jamlib/crc32.c
index 42b37de..bbdae86 100644
--- a/src/jamlib/crc32.c
+++ b/src/jamlib/crc32.c
@@ -72,7 +72,7 @@ uint32_t JAM_Crc32(char *Buffer_PC, uint32_t Length_I)
    Crc_I=0xffffffff;
 
    for(c=0;c < Length_I; c++)
-      Crc_I=(Crc_I>>8) ^ crc32tab[(char)Crc_I ^ tolower(Buffer_PC[c])];
+      Crc_I=(Crc_I>>8) ^ crc32tab[(Crc_I ^ tolower((unsigned char)Buffer_PC[c])) & 0xff];
 
    return(Crc_I);
 }
-- 
2.43.0


From e29babd357d69ad6ea342826435a3d45521c7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:39 +0000
Subject: [PATCH 10/79] fix: message text was read one byte past the end of a
 chunk

---
 src/crashmail/memmessage.c | 3 +++
 src/crashmail/memmessage.h | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 8e16f63..f95e1da 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -125,6 +125,7 @@ bool mmAddBuf(struct jbList *chunklist,char *buf,uint32_t len)
    {
       memcpy(&chunk->Data[chunk->Length],buf,(size_t)len);
       chunk->Length+=len;
+      chunk->Data[chunk->Length]=0;
 
       return(TRUE);
    }
@@ -156,6 +157,7 @@ bool mmAddBuf(struct jbList *chunklist,char *buf,uint32_t len)
             memcpy(chunk->Data,&oldchunk->Data[d+1],oldchunk->Length-d-1);
             chunk->Length=oldchunk->Length-d-1;
             oldchunk->Length=d+1;
+            oldchunk->Data[oldchunk->Length]=0;
          }
       }
 
@@ -164,6 +166,7 @@ bool mmAddBuf(struct jbList *chunklist,char *buf,uint32_t len)
 
    	memcpy(&chunk->Data[chunk->Length],buf,(size_t)copylen);
 	   chunk->Length+=copylen;
+	   chunk->Data[chunk->Length]=0;
 
 		buf=&buf[copylen];
 		len-=copylen;
diff --git a/src/crashmail/memmessage.h b/src/crashmail/memmessage.h
index 118bb5c..30ec24d 100644
--- a/src/crashmail/memmessage.h
+++ b/src/crashmail/memmessage.h
@@ -9,7 +9,7 @@ struct TextChunk
 {
    struct TextChunk *Next;
    uint32_t Length;
-   char Data[PKT_CHUNKLEN];
+   char Data[PKT_CHUNKLEN+1]; /* Data[Length] is always zero */
 };
 
 struct Nodes2D
-- 
2.43.0


From 7da694d0c92fabaca96984e040eed615dba264a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:39 +0000
Subject: [PATCH 11/79] fix: CRC of message identifiers with 8-bit characters
 indexed the table with negative numbers

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..ff3ec65 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ (unsigned char)str[c]];
 
    return(crc);
 }
-- 
2.43.0


From 4656b006f638decb832a4713d1e926fc7b585e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:49 +0000
Subject: [PATCH 12/79] fix: exporting a JAM message with flags added a wrong
 line instead of the FLAGS kludge

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index cec747e..884d81d 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -892,7 +892,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From a56347fb0684539af24f1f74ca9e209a73918520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:16 +0000
Subject: [PATCH 13/79] fix: a truncated JAM subfield was read beyond its
 buffer

---
 src/jamlib/message.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..f145d85 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -142,9 +142,15 @@ int JAM_ReadMsgHeader( s_JamBase* 	Base_PS,
 
 	    int		  Status_I;
 
+            if(Roof_PC - Ptr_PC < SIZE_JAMSAVESUBFIELD) {
+                JAM_DelSubPacket( SubPacket_PS );
+	        free (Buf_PC);
+                return JAM_CORRUPT_MSG;
+            }
+
             getjamsubfield(Ptr_PC,&Subfield_S);
 
-            if((char *)Subfield_S.Buffer + Subfield_S.DatLen > Roof_PC) {
+            if(Subfield_S.DatLen > (uint32_t)(Roof_PC - (char *)Subfield_S.Buffer)) {
                 JAM_DelSubPacket( SubPacket_PS );
 	        free (Buf_PC);
                 return JAM_CORRUPT_MSG;
-- 
2.43.0


From e9042d1920a7a2618c7c4b431cdafe18dd48ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:16 +0000
Subject: [PATCH 14/79] fix: long JAM header fields overflowed buffers and zero
 bytes in JAM text damaged packets when exporting

---
 src/crashmail/mb_jam.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 884d81d..ef2afab 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -651,6 +651,21 @@ void jam_makekludge(struct MemMessage *mm,char *pre,char *data,uint32_t len)
 	osFree(buf);
 }
 
+/* Copies a subfield to a string, size is the size of dest */
+
+void jam_getstring(char *dest,s_JamSubfield *Field_PS,uint32_t size)
+{
+   uint32_t len=Field_PS->DatLen;
+
+   if(len > size-1)
+      len=size-1;
+
+   if(len)
+      memcpy(dest,Field_PS->Buffer,len);
+
+   dest[len]=0;
+}
+
 bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning)
 {
    struct MemMessage *mm;
@@ -762,7 +777,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getstring(buf,Field_PS,200);
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -775,7 +790,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getstring(buf,Field_PS,200);
 
             if(hasaddr)
             {
@@ -795,12 +810,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getstring(buf,Field_PS,200);
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getstring(buf,Field_PS,200);
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -813,7 +828,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getstring(buf,Field_PS,200);
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -823,7 +838,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else jam_getstring(filesubject,Field_PS,200);
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -856,7 +871,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            jam_getstring(&flagsbuf[8],Field_PS,180);
             /* Don't add until attributes from header has been added */
             break;
       }
@@ -977,7 +992,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
          }
       }
 
-      if(!(mmAddBuf(&mm->TextChunks,msgtext,Header_S.TxtLen)))
+      if(!(mmAddBuf(&mm->TextChunks,msgtext,strlen(msgtext))))
       {
          JAM_DelSubPacket(SubPacket_PS);
          osFree(msgtext);
-- 
2.43.0


From 6e3cff5c3799948bf2e8e68b2337f1eeeaf2fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:12 +0000
Subject: [PATCH 15/79] fix: identifiers of mail from an interrupted or failed
 toss were remembered as duplicates

The dupe file was appended to while tossing, so mail that was tossed again
after a crash or failure was thrown away as duplicates, and a torn append
stopped all later runs. New entries are now kept in memory and replace the
file after the outbound has been written and before the inbound is deleted.
A failure to write the outbound no longer deletes the inbound.
---
 src/crashmail/crashmail.c |  12 ++-
 src/crashmail/dupe.c      | 203 ++++++++++++++++++++++----------------
 src/crashmail/dupe.h      |   2 +
 3 files changed, 129 insertions(+), 88 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..dfc64d2 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,12 +152,18 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
-   if(success)
+   if(success && !ArchiveOutbound())
+      success=FALSE;
+
+   if(init_dupedb)
    {
-      ArchiveOutbound();
-      ProcessSafeDelete();
+      if(success) WriteDupeDB();
+      else        DiscardDupeDB();
    }
 
+   if(success)
+      ProcessSafeDelete();
+
    for(i=0;AvailMessagebases[i].name;i++)
       if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)
         (*AvailMessagebases[i].afterfunc)(success);
diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index ff3ec65..529b95d 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -54,6 +54,8 @@ struct dupeentry
 {
    uint32_t offset;
    uint32_t crc32;
+   char *data;       /* Entry that is not yet in the dupe file, otherwise NULL */
+   uint16_t size;
 };
 
 bool dupechanged;
@@ -62,10 +64,15 @@ struct dupeentry *dupebuf;
 uint32_t dupeentrynum,dupeentrymax;
 osFile dupefh;
 
-void adddupeindex(uint32_t offset,uint32_t crc32)
+void adddupeindex(uint32_t offset,uint32_t crc32,char *data,uint16_t size)
 {
+   if(dupeentrynum < dupeentrymax && dupebuf[dupeentrynum].data)
+      osFree(dupebuf[dupeentrynum].data);
+
    dupebuf[dupeentrynum].offset=offset;
    dupebuf[dupeentrynum].crc32=crc32;
+   dupebuf[dupeentrynum].data=data;
+   dupebuf[dupeentrynum].size=size;
 
    dupeentrynum++;
 
@@ -76,34 +83,58 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+/* Reads an entry, returns its size or 0 */
+
+uint16_t readdupe(uint32_t c,char *buf)
 {
-   char buf[300];
    uint16_t size;
 
-   osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
+   if(dupebuf[c].data)
+   {
+      memcpy(buf,dupebuf[c].data,dupebuf[c].size);
+      return(dupebuf[c].size);
+   }
 
-   if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
-      return;
+   osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
 
-   if(osRead(oldfh,buf,size) != size)
-      return;
+   if(osRead(dupefh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
+      return(0);
 
-   if(!osWrite(newfh,&size,sizeof(uint16_t)))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+   if(size > 300 || osRead(dupefh,buf,(uint32_t)size) != size)
+      return(0);
+
+   return(size);
+}
 
-   if(!osWrite(newfh,buf,size))
+bool copydupe(uint32_t c,osFile newfh)
+{
+   char buf[300];
+   uint16_t size;
+
+   if(!(size=readdupe(c,buf)))
+      return(TRUE);
+
+   if(!osWrite(newfh,&size,sizeof(uint16_t)) || !osWrite(newfh,buf,size))
    {
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
+
+   return(TRUE);
+}
+
+void freedupes(void)
+{
+   uint32_t c;
+
+   for(c=0;c<dupeentrymax;c++)
+      if(dupebuf[c].data) osFree(dupebuf[c].data);
+
+   osFree(dupebuf);
+   dupebuf=NULL;
+   dupechanged=FALSE;
 }
 
 bool OpenDupeDB(void)
@@ -112,7 +143,10 @@ bool OpenDupeDB(void)
    uint32_t offset,crc32,*crc32p;
    uint16_t size,res;
 
-   if(!(dupebuf=osAlloc(config.cfg_DupeSize*sizeof(struct dupeentry))))
+   if(config.cfg_DupeSize == 0)
+      config.cfg_DupeSize=1;
+
+   if(!(dupebuf=osAllocCleared(config.cfg_DupeSize*sizeof(struct dupeentry))))
    {
       LogWrite(1,SYSTEMERR,"Not enough memory for dupe-check buffer\n");
       return(FALSE);
@@ -128,6 +162,7 @@ bool OpenDupeDB(void)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to open dupe file %s in read/write mode",config.cfg_DupeFile);
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      freedupes();
       return(FALSE);
    }
 
@@ -147,6 +182,7 @@ bool OpenDupeDB(void)
    {
       LogWrite(1,SYSTEMERR,"Invalid format of dupe file %s, exiting...",config.cfg_DupeFile);
       osClose(dupefh);
+      freedupes();
       return(FALSE);
    }
 
@@ -154,10 +190,11 @@ bool OpenDupeDB(void)
 
    while(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
    {
-      if(size == 0 || size > 300) /* Unreasonably big */
+      if(size < 4 || size > 300) /* Unreasonably big */
       {
          LogWrite(1,SYSTEMERR,"Error in dupe file %s, exiting...",config.cfg_DupeFile);
          osClose(dupefh);
+         freedupes();
          return(FALSE);
       }
 
@@ -165,13 +202,14 @@ bool OpenDupeDB(void)
       {
          LogWrite(1,SYSTEMERR,"Error in dupe file %s, exiting...",config.cfg_DupeFile);
          osClose(dupefh);
+         freedupes();
          return(FALSE);
       }
 
       crc32p=(uint32_t *)buf;
       crc32=*crc32p;
 
-      adddupeindex(offset,crc32);
+      adddupeindex(offset,crc32,NULL,0);
 
       offset += size+2;
    }
@@ -182,16 +220,38 @@ bool OpenDupeDB(void)
 }
 
 void CloseDupeDB(void)
+{
+   if(!dupebuf)
+      return;
+
+   osClose(dupefh);
+   freedupes();
+}
+
+/* Forgets the entries added since the file was opened */
+
+bool DiscardDupeDB(void)
+{
+   if(!dupechanged)
+      return(TRUE);
+
+   CloseDupeDB();
+
+   return OpenDupeDB();
+}
+
+/* Writes the entries added since the file was opened. The old file is only
+   replaced when the new one is complete */
+
+bool WriteDupeDB(void)
 {
    osFile newfh;
    uint32_t c;
    char duptemp[200];
+   bool ok;
 
    if(!dupechanged)
-   {
-      osClose(dupefh);
-      return;
-   }
+      return(TRUE);
 
    strcpy(duptemp,config.cfg_DupeFile);
    strcat(duptemp,".tmp");
@@ -201,88 +261,66 @@ void CloseDupeDB(void)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to open temporary dupe file %s for writing",duptemp);
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-
-      osFree(dupebuf);
-      osClose(dupefh);
-
-      return;
+      return(FALSE);
    }
 
-   osWrite(newfh,DUPES_IDENTIFIER,4);
+   ok=osWrite(newfh,DUPES_IDENTIFIER,4);
 
-   for(c=dupeentrynum;c<dupeentrymax;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=dupeentrynum;c<dupeentrymax && ok;c++)
+      ok=copydupe(c,newfh);
 
-   for(c=0;c<dupeentrynum;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=0;c<dupeentrynum && ok;c++)
+      ok=copydupe(c,newfh);
 
-   osClose(dupefh);
    osClose(newfh);
-   osFree(dupebuf);
 
-   dupechanged=FALSE;
+   if(!ok)
+   {
+      osDelete(duptemp);
+      return(FALSE);
+   }
+
+   CloseDupeDB();
 
-   osDelete(config.cfg_DupeFile);
-   osRename(duptemp,config.cfg_DupeFile);
+   if(!osRename(duptemp,config.cfg_DupeFile))
+   {
+      osDelete(config.cfg_DupeFile);
+      osRename(duptemp,config.cfg_DupeFile);
+   }
 
-   return;
+   return OpenDupeDB();
 }
 
-void AddDupeBuf(char *buf,uint16_t size)
+bool AddDupeBuf(char *buf,uint16_t size)
 {
-   uint32_t offset;
-   uint32_t crc32,*crc32p;
-
-   osSeek(dupefh,0,OFFSET_END);
-   offset=osFTell(dupefh);
-
-   crc32p=(uint32_t *)buf;
-   crc32=*crc32p;
+   char *data;
 
-   if(!osWrite(dupefh,&size,sizeof(uint16_t)))
+   if(!(data=osAlloc(size)))
    {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
-
-   if(!osWrite(dupefh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      nomem=TRUE;
+      return(FALSE);
    }
 
-   adddupeindex(offset,crc32);
+   memcpy(data,buf,size);
+   adddupeindex(0,*((uint32_t *)data),data,size);
 
    dupechanged=TRUE;
-}
-
-int dupecomp(char *d1,char *d2,uint32_t len)
-{
-   uint32_t c;
 
-   for(c=0;c<len;c++)
-      if(d1[c]!=d2[c]) return(1);
-
-   return(0);
+   return(TRUE);
 }
 
 bool CheckDupe(struct MemMessage *mm)
 {
-   uint32_t c,crc32,*crc32p;
+   uint32_t c,crc32;
    uint16_t size,dsize;
    char dbuf[300],buf[300];
 
-   if(mm->MSGID[0] == 0)
+   if(mm->MSGID[0] == 0 || !dupebuf)
       return(FALSE); /* No dupechecking for messages without MSGID */
 
    crc32=calcstringcrc(mm->MSGID);
 
-   crc32p=(uint32_t *)dbuf;
-   *crc32p=crc32;
+   memcpy(dbuf,&crc32,sizeof(uint32_t));
    dsize=4;
 
    strcpy(&dbuf[dsize],mm->MSGID);
@@ -296,19 +334,14 @@ bool CheckDupe(struct MemMessage *mm)
       {
          /* CRC matches, check rest */
 
-         osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
+         size=readdupe(c,buf);
 
-         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
-            if(size == dsize)
-               if(osRead(dupefh,buf,(uint32_t)size) == size)
-                  if(dupecomp(buf,dbuf,dsize) == 0)
-                     return(TRUE); /* Dupe */
+         if(size == dsize && buf[size-1]==0)
+            if(memcmp(buf,dbuf,dsize) == 0)
+               return(TRUE); /* Dupe */
       }
 
-
    AddDupeBuf(dbuf,dsize);
 
    return(FALSE);
 }
-
-
diff --git a/src/crashmail/dupe.h b/src/crashmail/dupe.h
index accab05..e808f1a 100644
--- a/src/crashmail/dupe.h
+++ b/src/crashmail/dupe.h
@@ -2,6 +2,8 @@
 
 bool OpenDupeDB(void);
 void CloseDupeDB(void);
+bool WriteDupeDB(void);
+bool DiscardDupeDB(void);
 
 bool CheckDupe(struct MemMessage *mm);
 
-- 
2.43.0


From 59684303823d0fed473c56d7a8e6c2db25bb9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:12 +0000
Subject: [PATCH 16/79] fix: duplicates were not recognised when the area tag
 was written in another case

---
 src/crashmail/dupe.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 529b95d..f117d96 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -312,7 +312,7 @@ bool AddDupeBuf(char *buf,uint16_t size)
 bool CheckDupe(struct MemMessage *mm)
 {
    uint32_t c,crc32;
-   uint16_t size,dsize;
+   uint16_t size,dsize,areapos;
    char dbuf[300],buf[300];
 
    if(mm->MSGID[0] == 0 || !dupebuf)
@@ -326,6 +326,8 @@ bool CheckDupe(struct MemMessage *mm)
    strcpy(&dbuf[dsize],mm->MSGID);
    dsize += strlen(mm->MSGID) + 1;
 
+   areapos=dsize;
+
    strcpy(&dbuf[dsize],mm->Area);
    dsize += strlen(mm->Area) + 1;
 
@@ -337,7 +339,7 @@ bool CheckDupe(struct MemMessage *mm)
          size=readdupe(c,buf);
 
          if(size == dsize && buf[size-1]==0)
-            if(memcmp(buf,dbuf,dsize) == 0)
+            if(memcmp(buf,dbuf,areapos) == 0 && stricmp(&buf[areapos],&dbuf[areapos]) == 0)
                return(TRUE); /* Dupe */
       }
 
-- 
2.43.0


From fd8561706c1689c6d982f30d2fa8926254aa949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:11 +0000
Subject: [PATCH 17/79] fix: mail for systems in different zones of another
 domain was put in the same packet

---
 src/crashmail/outbound.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..7e7e059 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -75,8 +75,14 @@ void MakeBaseName(struct Node4D *n4d,char *basename)
 
       *GetFilePart(basename)=0; /* Use domain as last component in path */
       strcat(basename,tmproute->Aka->Domain);
+
+      /* The zone of the first aka in this domain has no extension */
+
+      for(firstaka=(struct Aka *)config.AkaList.First;firstaka;firstaka=firstaka->Next)
+         if(stricmp(firstaka->Domain,tmproute->Aka->Domain)==0) break;
    }
-   else if(n4d->Zone != firstaka->Node.Zone)
+
+   if(n4d->Zone != firstaka->Node.Zone)
    {
 		/* same domain, different zones */	
     	sprintf(buf,".%03x", n4d->Zone);
-- 
2.43.0


From a14f79014c2bfde5181d25a391ec4eebf3fc33be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:33 +0000
Subject: [PATCH 18/79] fix: control lines were glued to the text of rescanned
 messages without a final CR

---
 src/crashmail/handle.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index b513578..2e49ea8 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1702,9 +1702,20 @@ bool HandleNetmail(struct MemMessage *mm)
 bool HandleRescan(struct MemMessage *mm)
 {
    struct Area *temparea;
+   struct TextChunk *chunk;
 
    rescan_total++;
 
+   /* Add CR if last line isn't complete, SEEN-BY and PATH will be added after it */
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(chunk && chunk->Length!=0)
+   {
+      if(chunk->Data[chunk->Length-1] != 13 && chunk->Data[chunk->Length-1] != 10)
+         mmAddBuf(&mm->TextChunks,"\x0d",1);
+   }
+
    /* Find area */
 
    for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
-- 
2.43.0


From 18aa60a71c160c3d4286f9082eecbe66c070f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:05 +0000
Subject: [PATCH 19/79] fix: CrashMaint applied KEEPNUM and KEEPDAYS of default
 and pass-through areas to the area before them

---
 src/tools/crashmaint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index c5ddf0d..2b59c1b 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -892,6 +892,8 @@ bool ReadConfig(char *file)
 
       if(stricmp(cfgword,"AREA")==0 || stricmp(cfgword,"NETMAIL")==0 || stricmp(cfgword,"LOCALAREA")==0)
       {
+         LastArea=NULL;
+
          jbstrcpy(tag,cfgbuf,80,&jbcpos); 
          jbstrcpy(aka,cfgbuf,80,&jbcpos);
 
-- 
2.43.0


From d189aabd99cd87402c07b2ab06131479026d8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:05 +0000
Subject: [PATCH 20/79] fix: CrashMaint deleted messages with a date in the
 future

---
 src/tools/crashmaint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 2b59c1b..bc3d776 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -317,7 +317,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
       {
-         if(today - msg->Day > area->KeepDays && msg->Num!=0)
+         if(today > msg->Day && today - msg->Day > area->KeepDays && msg->Num!=0)
          {
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
@@ -572,7 +572,7 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				if(day == 0)
 					day=Header_S.DateWritten / (24*60*60);
 
-			   if(today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
+			   if(today > day && today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
 				{
 					/* Not already deleted and too old*/
 
-- 
2.43.0


From c912e6c4eec342b07b2672d70fc3175b24cdc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:05 +0000
Subject: [PATCH 21/79] fix: renumbering left the high-water mark on a higher
 number when the marked message was gone

---
 src/tools/crashmaint.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index bc3d776..8e69d07 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -366,6 +366,16 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          }
       }
  
+      /* The mark follows the last message it covers, the marked message itself
+         may have been deleted */
+
+      num=0;
+
+      for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+         if(msg->Num!=0 && msg->Num<=highwater) num=msg->NewNum;
+
+      highwater=num;
+
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
          if(msg->Num!=0 && msg->Num!=msg->NewNum)
          {
@@ -375,9 +385,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             sprintf(buf2,"%u.msg",msg->NewNum);
 				MakeFullPath(area->Path,buf2,newbuf,200);
 
-            if(highwater == msg->Num)
-               highwater=msg->NewNum;
-
             if(verbose)
                printf(" Renaming message %u to %u\n",msg->Num,msg->NewNum);
 
-- 
2.43.0


From 1510e012c6b55f66a45e37ee7a181d2a139a1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 22/79] fix: JAM linking compared missing identifiers as equal
 where long has 64 bits

With JAM_QUICKLINK every message without a reply identifier was linked to the
messages without a message identifier.
---
 src/crashmail/mb_jam.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index ef2afab..8b2e73f 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1139,14 +1139,14 @@ bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
 struct Msg
 {
-   unsigned long MsgIdCRC;
-   unsigned long ReplyCRC;
-   unsigned long ReplyTo;
-   unsigned long Reply1st;
-   unsigned long ReplyNext;
-   unsigned long OldReplyTo;
-   unsigned long OldReply1st;
-   unsigned long OldReplyNext;
+   uint32_t MsgIdCRC;
+   uint32_t ReplyCRC;
+   uint32_t ReplyTo;
+   uint32_t Reply1st;
+   uint32_t ReplyNext;
+   uint32_t OldReplyTo;
+   uint32_t OldReply1st;
+   uint32_t OldReplyNext;
 };
 
 int jam_CompareMsgIdReply(s_JamBase *Base_PS,struct Msg *msgs,uint32_t msgidmsg,uint32_t replymsg)
-- 
2.43.0


From 3702e83ce06a7f96db5a44411a221e7556f2843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 23/79] fix: JAM linking linked messages to themselves, lost
 replies after the first 1000 and could leave the base locked

---
 src/crashmail/mb_jam.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 8b2e73f..4e96988 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1216,6 +1216,9 @@ void jam_setreply(struct Msg *msgs,uint32_t nummsgs,uint32_t base,uint32_t num,u
 {
    int n,times;
 
+   if(num == dest)
+      return; /* A message is not a reply to itself */
+
    if(msgs[dest].ReplyTo)
       return; /* Already linked */
 
@@ -1243,9 +1246,9 @@ void jam_setreply(struct Msg *msgs,uint32_t nummsgs,uint32_t base,uint32_t num,u
       {
 			times++;
 
-			if(times > 1000) /* Something appears to have gone wrong */
+			if(times > nummsgs) /* Something appears to have gone wrong */
 			{
-		      printf("Warning: >1000 replies to message %d or circular reply links\n",num+base);
+		      printf("Warning: circular reply links at message %d\n",num+base);
 				return;
 			}
 
@@ -1365,8 +1368,9 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
             Header_S.ReplyNext=msgs[c].ReplyNext;
 
             JAM_ChangeMsgHeader(ja->Base_PS,c,&Header_S);
-            JAM_UnlockMB(ja->Base_PS);
          }
+
+         JAM_UnlockMB(ja->Base_PS);
       }
 
    osFree(msgs);
-- 
2.43.0


From 35da495b9cb45f0d550f0568d2266944d98c2514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 24/79] fix: origin line without closing parenthesis is read
 past its end

---
 src/crashmail/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index e8affd6..ed522b4 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -589,12 +589,12 @@ bool ExtractAddress(char *origin, struct Node4D *n4d)
 
    pos++;
 
-   while(origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
+   while(origin[pos]!=0 && origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
       /* Skip (FidoNet ... ) */
 
    e=0;
 
-   while(origin[pos]!=')' && e<49)
+   while(origin[pos]!=0 && origin[pos]!=')' && e<49)
       addr[e++]=origin[pos++];
 
    addr[e]=0;
-- 
2.43.0


From e03fd2332886137526923b5e32bbec99c1856b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:17 +0000
Subject: [PATCH 25/79] fix: AreaFix writes past its line buffer and runs the
 rest of long lines as commands

---
 src/crashmail/areafix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..7ba7295 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,12 +120,17 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
+         for(d=0;d<99 && c+d<chunk->Length && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10;d++)
             buf[d]=chunk->Data[c+d];
 
          buf[d]=0;
          c+=d;
 
+         /* The rest of a very long line is not a new command */
+
+         while(c<chunk->Length && chunk->Data[c]!=13 && chunk->Data[c]!=10)
+            c++;
+
          if(strncmp(buf,"---",3)==0)
             stop=TRUE;
 
-- 
2.43.0


From 5ad4843c0b44f96d0163b767d73ce5f67a183613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 26/79] fix: control lines without contents take their contents
 from behind the line

---
 src/crashmail/memmessage.c | 50 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index f95e1da..cbe2c0f 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -362,10 +362,21 @@ bool AddSeenby(char *str,struct jbList *list)
    return(TRUE);
 }
 
+/* Contents of a control line, empty if the line is too short to have any */
+
+char *KludgeData(char *kludge,uint32_t pos)
+{
+   uint32_t len;
+
+   len=strlen(kludge);
+
+   return(len < pos ? &kludge[len] : &kludge[pos]);
+}
+
 void ProcessKludge(struct MemMessage *mm,char *kludge)
 {
    struct Node4D node;
-   char buf[60];
+   char buf[60],*data;
    uint32_t c,d;
 
    if(strncmp(kludge,"\x01RESCANNED",10)==0)
@@ -375,16 +386,20 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 
    if(strncmp(kludge,"\x01MSGID:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
-         mm->MSGID[d]=kludge[c];
+      data=KludgeData(kludge,8);
+
+      for(d=0,c=0;d<79 && data[c]!=13 && data[c]!=0;c++,d++)
+         mm->MSGID[d]=data[c];
          
       mm->MSGID[d]=0;
    }
 
    if(strncmp(kludge,"\x01REPLY:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
-         mm->REPLY[d]=kludge[c];
+      data=KludgeData(kludge,8);
+
+      for(d=0,c=0;d<79 && data[c]!=13 && data[c]!=0;c++,d++)
+         mm->REPLY[d]=data[c];
          
       mm->REPLY[d]=0;
    }
@@ -392,21 +407,18 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
    if(mm->Area[0]==0)
    {
       if(strncmp(kludge,"\x01" "FMPT",5)==0)
-         mm->OrigNode.Point=atoi(&kludge[6]);
+         mm->OrigNode.Point=atoi(KludgeData(kludge,6));
 
       if(strncmp(kludge,"\x01TOPT",5)==0)
-          mm->DestNode.Point=atoi(&kludge[6]);
+          mm->DestNode.Point=atoi(KludgeData(kludge,6));
 
       if(strncmp(kludge,"\x01INTL",5)==0)
       {
-         if(kludge[5]==':')
-            c=7;
-
-         else
-            c=6;
+         data=KludgeData(kludge,kludge[5]==':' ? 7 : 6);
+         c=0;
 
-         for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0;c++,d++)
-            buf[d]=kludge[c];
+         for(d=0;d<59 && data[c]!=32 && data[c]!=0;c++,d++)
+            buf[d]=data[c];
 
          buf[d]=0;
 
@@ -417,10 +429,10 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
             mm->DestNode.Node = node.Node;
          }
 
-         if(kludge[c]==32) c++;
+         if(data[c]==32) c++;
 
-         for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0 && kludge[c]!=13;c++,d++)
-            buf[d]=kludge[c];
+         for(d=0;d<59 && data[c]!=32 && data[c]!=0 && data[c]!=13;c++,d++)
+            buf[d]=data[c];
 
          buf[d]=0;
 
@@ -438,10 +450,10 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 bool mmAddLine(struct MemMessage *mm,char *buf)
 {
    if(mm->Area[0] && strncmp(buf,"SEEN-BY:",8)==0)
-      return AddSeenby(&buf[9],&mm->SeenBy);
+      return AddSeenby(KludgeData(buf,9),&mm->SeenBy);
 
    else if(mm->Area[0] && strncmp(buf,"\x01PATH:",6)==0)
-      return mmAddPath(&buf[7],&mm->Path);
+      return mmAddPath(KludgeData(buf,7),&mm->Path);
 
  	else if(mm->Area[0] && strncmp(buf," * Origin: ",11)==0)
 	{
-- 
2.43.0


From 35d95cb4926054281f08f3deb0e48654ad6fb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:05 +0000
Subject: [PATCH 27/79] fix: filter substring search misses matches, in
 particular repeated letters, 8-bit letters and long texts

---
 src/crashmail/filter.c | 61 +++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 91b49cb..0ca7d86 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -11,13 +11,10 @@ void bminit(char *pat)
    len=strlen(pat);
 
    for(i=0;i<256;i++)
-      bmstep[i]=0;
+      bmstep[i]=len;
 
-   for(i=0;i<len;i++)
-      bmstep[tolower(pat[i])]=len-i-1;
-
-   for(i=0;i<256;i++)
-      if(bmstep[i] == 0) bmstep[i]=len;
+   for(i=0;i<len-1;i++)
+      bmstep[tolower((unsigned char)pat[i])]=len-i-1;
 }
 
 long bmfind(char *pat,char *text,long textlen,long start)
@@ -32,12 +29,12 @@ long bmfind(char *pat,char *text,long textlen,long start)
    while(i<=end)
    {
       for(j=len-1;j>=0;j--)
-         if(tolower(text[i+j])!=tolower(pat[j])) break;
+         if(tolower((unsigned char)text[i+j])!=tolower((unsigned char)pat[j])) break;
 
       if(j == -1)
          return(i);
 
-      i+=bmstep[tolower(text[i+j])];
+      i+=bmstep[tolower((unsigned char)text[i+len-1])];
    }
 
    return(-1);
@@ -192,7 +189,9 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 {
    static char errbuf[100];
    struct TextChunk *chunk;
-   long start,pos,c;
+   long start,pos,c,textlen;
+   char *text;
+   int res;
 
    if(operator[0]==0)
    {
@@ -212,24 +211,48 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 
    bminit(data);
 
+   /* Lines may continue in the next chunk, search all of the text at once */
+
+   textlen=0;
+
+   for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
+      textlen+=chunk->Length;
+
+   if(textlen == 0)
+      return(0);
+
+   if(!(text=osAlloc(textlen)))
+   {
+      nomem=TRUE;
+      *errstr="Out of memory";
+      *errpos=0;
+      return(-1);
+   }
+
+   start=0;
+
    for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
    {
-      /* Search chunk */
+      memcpy(&text[start],chunk->Data,chunk->Length);
+      start+=chunk->Length;
+   }
 
-      start=0;
+   res=0;
+   start=0;
 
-      while((pos=bmfind(data,chunk->Data,chunk->Length,start)) != -1)
-      {
-         start=pos+1;
+   while(res == 0 && (pos=bmfind(data,text,textlen,start)) != -1)
+   {
+      start=pos+1;
 
-         for(c=pos;c>0 && chunk->Data[c]!=1 && chunk->Data[c]!=13;c--);
+      for(c=pos;c>0 && text[c]!=1 && text[c]!=13;c--);
 
-         if(chunk->Data[c]==1 && kludge)  return(1);
-         if(chunk->Data[c]!=1 && !kludge) return(1);
-      }
+      if(text[c]==1 && kludge)  res=1;
+      if(text[c]!=1 && !kludge) res=1;
    }
 
-   return(0);
+   osFree(text);
+
+   return(res);
 }
 
 int filter_evalfunc(char *str,int *errpos,char **errstr)
-- 
2.43.0


From 7c07937f7230709228cb06909942afe7620bc807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:05 +0000
Subject: [PATCH 28/79] fix: error messages of the filter overflow their buffer

---
 src/crashmail/filter.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 0ca7d86..651cac9 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -55,7 +55,7 @@ int filter_nllookup(struct Node4D *node)
 
 int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[250];
    struct Node4DPat pat;
 
    if(operator[0]==0)
@@ -98,7 +98,7 @@ int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,i
 
 int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[250];
 
    if(operator[0]==0)
    {
@@ -143,7 +143,7 @@ int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,i
 
 int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[250];
 
    if(operator[0]==0)
    {
@@ -187,7 +187,7 @@ int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int d
 
 int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[250];
    struct TextChunk *chunk;
    long start,pos,c,textlen;
    char *text;
@@ -258,7 +258,7 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 int filter_evalfunc(char *str,int *errpos,char **errstr)
 {
    char type[20],source[20];
-   static char errbuf[100];
+   static char errbuf[250];
    struct Aka *aka;
    struct ConfigNode *cnode;
    bool fileattach,tolocalaka,fromlocalaka,tolocalpoint,fromlocalpoint;
-- 
2.43.0


From fe9c8fbb0ff5383773c1c715413a180b804bd47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:27 +0000
Subject: [PATCH 29/79] fix: NOT before parentheses in filter expressions only
 negates the first part

---
 src/shared/expr.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d010367..5a635e8 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -35,14 +35,17 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
    if(expr->buf[c]=='(')
    {
       int nump;
+      bool inquote;
 
       nump=1;
+      inquote=FALSE;
       d=c+1;
 
       while(nump!=0 && expr->buf[d]!=0)
       {
-         if(expr->buf[d]=='(') nump++;
-         if(expr->buf[d]==')') nump--;
+         if(expr->buf[d]=='"') inquote=!inquote;
+         if(expr->buf[d]=='(' && !inquote) nump++;
+         if(expr->buf[d]==')' && !inquote) nump--;
 
          d++;
       }
@@ -52,6 +55,14 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
          start=c+1;
          len=d-c-2;
 
+         if(hasnot)
+         {
+            /* Keep the parentheses, NOT applies to all of the contents */
+
+            start=c;
+            len=d-c;
+         }
+
          if(!(res=osAlloc(sizeof(struct expr))))
          {
             *errpos=expr->offset;
@@ -258,7 +269,7 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
          {
             int res;
 
-            strcpy(e1->buf,&e1->buf[4]);
+            memmove(e1->buf,&e1->buf[4],strlen(&e1->buf[4])+1);
             e1->parsepos=0;
 
             res=expr_eval(e1,eval,errpos,errstr);
-- 
2.43.0


From b78ed38cb1c168cdb053dfc7e5ae7b6a5d5a802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:34 +0000
Subject: [PATCH 30/79] fix: filter expressions without parentheses are not
 evaluated from left to right

---
 src/shared/expr.c | 167 ++++++++--------------------------------------
 1 file changed, 29 insertions(+), 138 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index 5a635e8..0982dd1 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -157,52 +157,6 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
    return(res);
 }
 
-struct expr *expr_getrest(struct expr *expr,int *errpos,char **errstr)
-{
-   int c,d,start,len;
-   struct expr *res;
-
-   c=expr->parsepos;
-
-   /* Skip leading whitespace */
-
-   while(expr->buf[c]==' ')
-      c++;
-
-   d=c;
-
-   while(expr->buf[d]!=0)
-      d++;
-
-   start=c;
-   len=d-c;
-
-   if(!(res=osAlloc(sizeof(struct expr))))
-   {
-      *errpos=expr->offset;
-      *errstr="Out of memory";
-      return(NULL);
-   }
-
-   if(!(res->buf=osAlloc(len+10)))
-   {
-      osFree(res);
-      *errpos=expr->offset;
-      *errstr="Out of memory";
-      return(NULL);
-   }
-
-   res->parsepos=0;
-   res->offset=expr->offset+start;
-   res->buf[0]=0;
-
-   strncat(res->buf,&expr->buf[start],len);
-
-   expr->parsepos=d;
-
-   return(res);
-}
-
 struct expr *expr_makeexpr(char *str)
 {
    struct expr *expr;
@@ -232,6 +186,8 @@ void expr_free(struct expr *expr)
 int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr)
 {
    struct expr *e1,*e2,*e3;
+   int r1,r2;
+   bool isand;
 
    e1=expr_get(expr,errpos,errstr);
 
@@ -248,15 +204,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
       return(-1);
    }
 
-   e3=expr_getrest(expr,errpos,errstr);
-
-   if(!e3)
-   {
-      expr_free(e1);
-      expr_free(e2);
-      return(-1);
-   }
-
    if(e2->buf[0] == 0)
    {
       /* Only one expression */
@@ -281,7 +228,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -298,7 +244,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -313,122 +258,68 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
          expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
 
          return (res);
       }
    }
 
-   if(stricmp(e2->buf,"AND")==0)
-   {
-      int r1,r2,res;
+   /* Two or more expressions, evaluated from left to right */
 
-      if(e3->buf[0] == 0)
-      {
-         *errstr="Expected second expression after AND";
-         *errpos=e3->offset;
+   r1=expr_eval(e1,eval,errpos,errstr);
 
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+   expr_free(e1);
 
-         return(-1);
+   while(r1 != -1 && e2->buf[0] != 0)
+   {
+      if(stricmp(e2->buf,"AND")==0)
+      {
+         isand=TRUE;
       }
-
-      r1=expr_eval(e1,eval,errpos,errstr);
-
-      if(r1 == -1)
+      else if(stricmp(e2->buf,"OR")==0)
       {
-         expr_free(e1);
+         isand=FALSE;
+      }
+      else
+      {
+         *errstr="Expected AND or OR";
+         *errpos=e2->offset;
+
          expr_free(e2);
-         expr_free(e3);
          return(-1);
       }
 
-      r2=expr_eval(e3,eval,errpos,errstr);
-
-      if(r2 == -1)
+      if(!(e3=expr_get(expr,errpos,errstr)))
       {
-         expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
          return(-1);
       }
 
-      res=0;
-
-      if(r1 && r2)
-         res=1;
-
-/* printf("|%s| AND |%s|: %d\n",e1->buf,e3->buf,res); */
-
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
-
-      return(res);
-   }
-   else if(stricmp(e2->buf,"OR")==0)
-   {
-      int r1,r2,res;
-
       if(e3->buf[0] == 0)
       {
-         *errstr="Expected second expression after OR";
+         *errstr=isand ? "Expected second expression after AND" : "Expected second expression after OR";
          *errpos=e3->offset;
 
-         expr_free(e1);
          expr_free(e2);
          expr_free(e3);
-
-         return(-1);
-      }
-
-      r1=expr_eval(e1,eval,errpos,errstr);
-
-      if(r1 == -1)
-      {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-
          return(-1);
       }
 
       r2=expr_eval(e3,eval,errpos,errstr);
 
-      if(r2 == -1)
-      {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+      expr_free(e2);
+      expr_free(e3);
 
+      if(r2 == -1)
          return(-1);
-      }
 
-      res=0;
+      if(isand) r1=(r1 && r2) ? 1 : 0;
+      else      r1=(r1 || r2) ? 1 : 0;
 
-      if(r1 || r2)
-         res=1;
-
-/* printf("|%s| OR |%s|: %d\n",e1->buf,e3->buf,res); */
-
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
-
-      return(res);
+      if(!(e2=expr_get(expr,errpos,errstr)))
+         return(-1);
    }
-   else
-   {
-      *errstr="Expected AND or OR";
-      *errpos=e2->offset;
 
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
+   expr_free(e2);
 
-      return(-1);
-   }
+   return(r1);
 }
-
-- 
2.43.0


From 88fd2b1dc1a746bed9477503d23dd19c679dfdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:47 +0000
Subject: [PATCH 31/79] fix: scanning a MSG area leaks memory for every number
 without an unsent message

---
 src/crashmail/mb_msg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 25e99cf..e1cd011 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -187,6 +187,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(!(fh=osOpen(buf,MODE_OLDFILE)))
    {
       /* Message doesn't exist */
+      mmFree(mm);
       return(TRUE);
    }
 
@@ -194,6 +195,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       LogWrite(1,TOSSINGERR,"Unexpected EOF while reading %s, message ignored",buf);
       osClose(fh);
+      mmFree(mm);
       return(TRUE);
    }
 
@@ -203,6 +205,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 		{
 			/* Don't touch if the message is sent or not local */
 			osClose(fh);
+			mmFree(mm);
    	   return(TRUE);
 		}
    }
-- 
2.43.0


From fc7b5aa5b1bcd2b77bc136068bd2094a9e74b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 32/79] fix: file-attach with an empty name or . moves the
 whole inbound directory

---
 src/crashmail/handle.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 2e49ea8..aeb25ac 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1602,6 +1602,11 @@ bool HandleNetmail(struct MemMessage *mm)
 
 			while(jbstrcpy(buf,subjtemp,80,&jbcpos))
 			{
+            /* Names of directories are not files */
+
+            if(GetFilePart(buf)[0]==0 || strcmp(GetFilePart(buf),".")==0 || strcmp(GetFilePart(buf),"..")==0)
+               continue;
+
 				if(mm->Subject[0] != 0) strcat(mm->Subject," ");
          	strcat(mm->Subject,GetFilePart(buf));
 
-- 
2.43.0


From 5553972d572fb6cc08bb2771ff3b87e4af257991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 33/79] fix: an attached file replaces a waiting file of the
 same name

---
 src/crashmail/handle.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index aeb25ac..e33b68e 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1614,9 +1614,10 @@ bool HandleNetmail(struct MemMessage *mm)
 
             if((mm->Flags & MMFLAG_EXPORTED))
             {
-					if(osExists(buf))
+					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
+
+					if(osExists(buf) && !osExists(buf2))
                {
-						MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
                   copyfile(buf,buf2);
 
 						if(nomem || ioerror)
@@ -1634,7 +1635,7 @@ bool HandleNetmail(struct MemMessage *mm)
 					MakeFullPath(config.cfg_Inbound,GetFilePart(buf),buf2,200);
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf3,200);
 
-               if(movefile(buf2,buf3))
+               if(!osExists(buf3) && movefile(buf2,buf3))
                {
                   AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE);
                }
-- 
2.43.0


From a0a4cd846a873e7d10cec249d9e0c4c301ef8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:46 +0000
Subject: [PATCH 34/79] fix: notification about a removed area with a long name
 overflows its buffer

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 7ba7295..f4d78b0 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -737,7 +737,7 @@ bool AreaFix(struct MemMessage *mm)
 void SendRemoveMessages(struct Area *area)
 {
    struct TossNode *tn;
-   char buf[100];
+   char buf[200];
    struct MemMessage *mm;
 	
    for(tn=(struct TossNode *)area->TossNodes.First;tn;tn=tn->Next)
-- 
2.43.0


From cf957a9465d746a7dff4647cfa9aee6b8253aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 35/79] fix: the tear line ends an AreaFix request and is not
 itself a command

---
 src/crashmail/areafix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index f4d78b0..22e39e0 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -132,7 +132,12 @@ bool AreaFix(struct MemMessage *mm)
             c++;
 
          if(strncmp(buf,"---",3)==0)
+         {
+            /* The tear line is not a command */
+
             stop=TRUE;
+            buf[0]=0;
+         }
 
 			stripleadtrail(buf);
 
-- 
2.43.0


From ee19b64c7a82f7468464f7a6475db1e3247d1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 36/79] fix: a forward request to an uplink without a route
 must not crash AreaFix

---
 src/crashmail/areafix.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 22e39e0..644dde5 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1569,15 +1569,23 @@ void SendRemoteAreafix(void)
    for(node=(struct ConfigNode *)config.CNodeList.First;node;node=node->Next)
       if(node->RemoteAFList.First)
       {
+         for(tmproute=(struct Route *)config.RouteList.First;tmproute;tmproute=tmproute->Next)
+            if(Compare4DPat(&tmproute->Pattern,&node->Node)==0) break;
+
+         if(!tmproute)
+         {
+            Print4D(&node->Node,buf);
+            LogWrite(1,TOSSINGERR,"No route found for %s",buf);
+            jbFreeList(&node->RemoteAFList);
+            continue;
+         }
+
 			if(!(mm=mmAlloc()))
 			{
 				nomem=TRUE;
 				return;
 			}
 
-         for(tmproute=(struct Route *)config.RouteList.First;tmproute;tmproute=tmproute->Next)
-            if(Compare4DPat(&tmproute->Pattern,&node->Node)==0) break;
-
          Copy4D(&mm->DestNode,&node->Node);
          Copy4D(&mm->OrigNode,&tmproute->Aka->Node);
 
-- 
2.43.0


From 4253abc2d0cf9ad998780acd21c1382dab2f379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 37/79] fix: AreaFix removed the command character with an
 overlapping strcpy

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 644dde5..33b6730 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -336,19 +336,19 @@ bool AreaFix(struct MemMessage *mm)
             if(areaname[0]=='-')
             {
                command=COMMAND_REMOVE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else if(areaname[0]=='=')
             {
                command=COMMAND_UPDATE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else
             {
                command=COMMAND_ADD;
 
                if(areaname[0]=='+')
-                  strcpy(areaname,&areaname[1]);
+                  memmove(areaname,&areaname[1],strlen(areaname));
             }
 
             if(!osCheckPattern(areaname))
-- 
2.43.0


From cc354a9ae0b4576881a6501902d26b63dc8ca74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:58 +0000
Subject: [PATCH 38/79] fix: a long tag in a forward request overflowed the new
 area's tag name

---
 src/crashmail/handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index e33b68e..ecdf2f5 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -205,7 +205,7 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
       char *forbiddenchars="\"#'`()*,./:;<>|";
       char buf[100],buf2[100];
 
-      strcpy(buf,name);
+      mystrncpy(buf,name,100);
 
       for(c=0;buf[c]!=0;c++)
          if(buf[c]<33 || buf[c]>126 || strchr(forbiddenchars,buf[c]))
@@ -246,7 +246,7 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
    if(!active)
       temparea->Flags=AREA_UNCONFIRMED;
 
-   strcpy(temparea->Tagname,name);
+   mystrncpy(temparea->Tagname,name,80);
 
    temparea->Aka=tempaka;
 	temparea->AreaType = AREATYPE_ECHOMAIL;
-- 
2.43.0


From e2b77c3df3c38d3555cf8ed5559335a65e5e5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:12 +0000
Subject: [PATCH 39/79] fix: auto-added areas whose tags map to the same path
 must not share one message base

---
 src/crashmail/handle.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index ecdf2f5..d5463a3 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -144,6 +144,16 @@ void MakeDirectory(char *dest,uint32_t destsize,char *defdir,char *areaname)
    dest[d]=0;
 }
 
+bool PathInUse(char *path)
+{
+   struct Area *area;
+
+   for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
+      if(area->AreaType != AREATYPE_DEFAULT && area->Messagebase && stricmp(area->Path,path)==0) return(TRUE);
+
+   return(FALSE);
+}
+
 struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32_t active,uint32_t forcepassthru)
 {
    struct Area *temparea,*defarea;
@@ -215,6 +225,21 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
          MakeDirectory checks for duplicate area names in the AreaList
          and would get confused */
       MakeDirectory(buf2,80,defarea->Path,buf);
+
+      /* Different tags may give the same path but two areas must never
+         share a messagebase */
+
+      strcpy(buf,buf2);
+
+      for(c=1;PathInUse(buf2);c++)
+      {
+         char suffix[20];
+
+         sprintf(suffix,"_%u",(unsigned int)c);
+         mystrncpy(buf2,buf,80-strlen(suffix));
+         strcat(buf2,suffix);
+      }
+
       strcpy(temparea->Path,buf2);
 
       if(!forcepassthru)
-- 
2.43.0


From 17a052c9eaabcf7555dd4bd134cf539ef8db5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:24 +0000
Subject: [PATCH 40/79] fix: DOMAIN and AREAFIXINFO arguments were read past
 the end of their fields

---
 src/crashmail/config.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 949e251..0f37696 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -160,7 +160,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(!(jbstrcpy(LastAka->Domain,cfgbuf,200,&jbcpos)))
+         if(!(jbstrcpy(LastAka->Domain,cfgbuf,20,&jbcpos)))
          {
             strcpy(cfgerr,"Missing argument");
             osClose(cfgfh);
@@ -341,7 +341,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(jbstrcpy(LastCNode->Groups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->Groups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->Groups))
             {
@@ -351,7 +351,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->ReadOnlyGroups))
             {
@@ -361,7 +361,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->AddGroups))
             {
-- 
2.43.0


From 9c92fe022c953c6658ede3b8b9c6595bb588fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:32 +0000
Subject: [PATCH 41/79] fix: a received area tag like DEFAULT_A must not become
 a default area of the configuration

---
 src/crashmail/handle.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index d5463a3..a57c269 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -567,6 +567,21 @@ bool HandleEchomail(struct MemMessage *mm)
    for(tempcnode=(struct ConfigNode *)config.CNodeList.First;tempcnode;tempcnode=tempcnode->Next)
       if(Compare4D(&mm->PktOrig,&tempcnode->Node)==0) break;
 
+   /* These tags have a special meaning in the configuration file, a received
+      message must not use or create such an area */
+
+   if(stricmp(mm->Area,"BAD")==0 || stricmp(mm->Area,"DEFAULT")==0 || strnicmp(mm->Area,"DEFAULT_",8)==0)
+   {
+      LogWrite(1,TOSSINGERR,"Reserved area name %s",mm->Area);
+
+      toss_bad++;
+
+      if(!WriteBad(mm,"Reserved area name"))
+         return(FALSE);
+
+      return(TRUE);
+   }
+
    /* Find area */
 
    for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
-- 
2.43.0


From f93489f40cdc5d5f71e9718757a5adf3b0a67634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:02 +0000
Subject: [PATCH 42/79] fix: osClose and osFPrintf must report data that could
 not be written

---
 src/oslib/osfile.h       |  2 +-
 src/oslib_linux/osfile.c | 18 ++++++++++++++----
 src/oslib_win32/osfile.c |  9 +++++++--
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 8b55d20..b96efbd 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -15,7 +15,7 @@ typedef void *osFile;
 #define OFFSET_END	 1 
 
 osFile osOpen(char *name,uint32_t mode);
-void osClose(osFile os);
+bool osClose(osFile os); /* Returns FALSE if everything could not be written */
 int osGetChar(osFile os);
 uint32_t osRead(osFile os,void *buf,uint32_t bytes);
 uint32_t osFGets(osFile os,char *str,uint32_t max);
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..ad3d5c7 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -29,9 +29,19 @@ osFile osOpen(char *name,uint32_t mode)
    return (osFile) fh;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
-    fclose((FILE *)os);
+   bool res;
+
+   res=TRUE;
+
+   if(ferror((FILE *)os))
+      res=FALSE;
+
+   if(fclose((FILE *)os)!=0)
+      res=FALSE;
+
+   return(res);
 }
 
 int osGetChar(osFile os)
@@ -111,7 +121,7 @@ bool osFPrintf(osFile os,char *fmt,...)
    res=vfprintf(os,fmt,args);
    va_end(args);
 	
-	if(!res)
+	if(res<0)
 		return(FALSE);
 		
 	return(TRUE);
@@ -123,7 +133,7 @@ bool osVFPrintf(osFile os,char *fmt,va_list args)
 	
    res=vfprintf(os,fmt,args);
 	
-	if(!res)
+	if(res<0)
 		return(FALSE);
 		
 	return(TRUE);
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 528865b..2950a6a 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -142,16 +142,21 @@ osFile osOpen(char *name,ulong mode)
    return (osFile)os;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
    struct osfile *osf=(struct osfile *)os;
+   bool res;
+
+   res=TRUE;
 
    if(osf->lastaccessmode == LASTACCESS_WRITE)
-      win32writebuffer(osf);
+      res=win32writebuffer(osf);
 
    CloseHandle(osf->h);
    osFree(osf->buf);
    osFree(osf);
+
+   return(res);
 }
 
 ulong osRead(osFile os,void *buf,ulong bytes)
-- 
2.43.0


From a40d83d4fb9889d77a6b0c05ca6167baa7e7a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:19 +0000
Subject: [PATCH 43/79] fix: an area with a long tag disappeared when the
 configuration was rewritten

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 0f37696..10a32c7 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2283,7 +2283,7 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       {
          skiparea=FALSE;
 
-         if(jbstrcpy(buf,cfgbuf,100,&jbcpos))
+         if(jbstrcpy(buf,cfgbuf,80,&jbcpos)) /* Tagnames are cut at 79 characters in ReadConfig() too */
          {
             for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
                if(stricmp(buf,area->Tagname)==0) break;
-- 
2.43.0


From 6af7d5e0d8052a3ec8a87595e4dc94d781c757d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:19 +0000
Subject: [PATCH 44/79] fix: a configuration that cannot be rewritten
 completely must not replace the old one

---
 src/crashmail/config.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 10a32c7..6a28c13 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2362,11 +2362,36 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       }
 
    osClose(oldfh);
-   osClose(newfh);
+
+   if(!osClose(newfh))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Unable to write to config file %s (error: %s)",cfgtemp,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
+
+   /* Replace the old file in one step so that there always is a complete
+      configuration file */
 
    osDelete(cfgbak);
-   osRename(cfg->filename,cfgbak);
-   osRename(cfgtemp,cfg->filename);
+   copyfile(cfg->filename,cfgbak);
+
+   if(!osRename(cfgtemp,cfg->filename))
+   {
+      /* Not possible when the file exists on some systems */
+
+      osDelete(cfgbak);
+
+      if(!osRename(cfg->filename,cfgbak) || !osRename(cfgtemp,cfg->filename))
+      {
+   		uint32_t err=osError();
+         sprintf(cfgerr,"Unable to replace config file %s (error: %s)",cfg->filename,osErrorMsg(err));
+         osRename(cfgbak,cfg->filename);
+         osDelete(cfgtemp);
+         return(FALSE);
+      }
+   }
 
    cfg->changed=FALSE;
 
-- 
2.43.0


From a282d4e3e1eadf85e0d4ae7e82db460674911a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:19 +0000
Subject: [PATCH 45/79] fix: an error message was used as format string

---
 src/crashmail/crashmail.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index dfc64d2..4692d77 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -220,7 +220,7 @@ void AfterScanToss(bool success)
          LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
 
          if(!UpdateConfig(&config,errbuf))
-            LogWrite(1,SYSTEMERR,errbuf);
+            LogWrite(1,SYSTEMERR,"%s",errbuf);
       }
    }
 
-- 
2.43.0


From b2195049c5f27896995eef410bb4c5623efef6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:27 +0000
Subject: [PATCH 46/79] fix: a message that could not be flushed to the JAM
 base counted as stored

---
 src/crashmail/mb_jam.c |  6 +++++-
 src/jamlib/mbase.c     | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 4e96988..4391be7 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -623,7 +623,11 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
 
-   JAM_UnlockMB(ja->Base_PS);
+   /* JAM_UnlockMB() flushes the files, the message is not written until then */
+
+   if(JAM_UnlockMB(ja->Base_PS))
+      res=JAM_IO_ERROR;
+
    JAM_DelSubPacket(SubPacket_PS);
    if(msgsize) osFree(msgtext);
 
diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..b5e744a 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -332,10 +332,18 @@ int JAM_LockMB( s_JamBase* Base_PS, int Timeout_I )
 ***********************************************************************/
 int JAM_UnlockMB( s_JamBase* Base_PS )
 {
-    fflush( Base_PS->HdrFile_PS );
-    fflush( Base_PS->TxtFile_PS );
-    fflush( Base_PS->IdxFile_PS );
-    fflush( Base_PS->LrdFile_PS );
+    int Status_I = 0;
+
+    if ( fflush( Base_PS->HdrFile_PS ) ) Status_I = errno;
+    if ( fflush( Base_PS->TxtFile_PS ) ) Status_I = errno;
+    if ( fflush( Base_PS->IdxFile_PS ) ) Status_I = errno;
+    if ( fflush( Base_PS->LrdFile_PS ) ) Status_I = errno;
+
+    if ( Status_I ) {
+	jam_Lock( Base_PS, 0 );
+	Base_PS->Errno_I = Status_I;
+	return JAM_IO_ERROR;
+    }
 
     return jam_Lock( Base_PS, 0 );
 }
-- 
2.43.0


From 1b48054a0107a389340ecaecd3b26948cf63cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:28 +0000
Subject: [PATCH 47/79] fix: a *.msg message that could not be written
 completely was kept and replaced the old one

---
 src/crashmail/mb_msg.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index e1cd011..a6dc9d7 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -466,7 +466,14 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    struct Path *path;
    osFile fh;
    int c;
-   
+   char tmpfile[210];
+
+   /* Written under another name so that the message is either complete or
+      not there at all, and an old message stays until it can be replaced */
+
+   mystrncpy(tmpfile,file,200);
+   strcat(tmpfile,".tmp");
+
    strcpy(Msg.From,mm->From);
    strcpy(Msg.To,mm->To);
    strcpy(Msg.Subject,mm->Subject);
@@ -503,9 +510,9 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       Msg.OrigPoint  =  0;
    }
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   if(!(fh=osOpen(tmpfile,MODE_NEWFILE)))
    {
-      printf("Failed to write to %s\n",file);
+      printf("Failed to write to %s\n",tmpfile);
       return(FALSE);
    }
 
@@ -531,6 +538,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       if(!(sbbuf=mmMakeSeenByBuf(&mm->SeenBy)))
       {
          osClose(fh);
+         osDelete(tmpfile);
          return(FALSE);
       }
 
@@ -562,10 +570,17 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
+   if(!ioerror && !osRename(tmpfile,file))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
+   {
+      osDelete(tmpfile);
       return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From d3d8793912ade0e00851a873933adde031d350af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:28 +0000
Subject: [PATCH 48/79] fix: inbound mail was deleted although packets or bad
 files could not be written

---
 src/crashmail/crashmail.c | 5 +++++
 src/crashmail/misc.c      | 6 +++++-
 src/crashmail/pkt.c       | 8 ++++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 4692d77..a080658 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,6 +152,11 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
+   /* Something could not be written, keep the mail until the next run */
+
+   if(nomem || ioerror)
+      success=FALSE;
+
    if(success && !ArchiveOutbound())
       success=FALSE;
 
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index ed522b4..7429604 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -308,6 +308,8 @@ void BadFile(char *filename,char *comment)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to move %s to %s",filename,destname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      ioerror=TRUE; /* The file must not be deleted as if it had been processed */
+      ioerrornum=err;
       return;
    }
 
@@ -389,7 +391,9 @@ bool copyfile(char *file,char *newfile)
 
    free(copybuf);
 
-   osClose(ofh);
+   if(!osClose(ofh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
+
    osClose(ifh);
 
    if(ioerror)
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index cadf233..2530f1f 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -127,7 +127,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
-      return(TRUE);
+      return(FALSE); /* Not processed, must not be deleted */
    }
 
    if(osRead(fh,PktHeader,SIZE_PKTHEADER)!=SIZE_PKTHEADER)
@@ -659,7 +659,9 @@ void FinishPacket(struct Pkt *pkt)
 {
    pktWrite(pkt,(uint8_t *)"",1);
    pktWrite(pkt,(uint8_t *)"",1);
-   osClose(pkt->fh);
+
+   if(!osClose(pkt->fh))
+      { ioerror=TRUE; ioerrornum=osError(); }
 
    if(pkt->hexnum)
    {
@@ -699,6 +701,8 @@ void FinishPacket(struct Pkt *pkt)
 			uint32_t err=osError();
 			LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",oldname,newname);
 			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+			ioerror=TRUE;
+			ioerrornum=err;
 		}	
    }
    
-- 
2.43.0


From dbe6d3ec35e9e6b7fbd09b4966297f0ecd02dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:46 +0000
Subject: [PATCH 49/79] fix: an area removed by AreaFix was used after it had
 been freed

---
 src/crashmail/areafix.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 33b6730..c6950ef 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -837,9 +837,10 @@ void SendRemoveMessages(struct Area *area)
 
 void RemoveDeletedAreas(void)
 {
-	struct Area *area,*temparea;
+	struct Area *area,*temparea,*prevarea;
 
    area=(struct Area *)config.AreaList.First;
+   prevarea=NULL;
 
    while(area)
    {
@@ -847,10 +848,23 @@ void RemoveDeletedAreas(void)
 
 	   if(area->AreaType == AREATYPE_DELETED)
 		{
+         /* Only taken out of the list, the messagebases and Scan() might
+            still refer to it */
+
          jbFreeList(&area->TossNodes);
-			jbFreeNode(&config.AreaList,(struct jbNode *)area);
+
+         if(prevarea) prevarea->Next=temparea;
+         else         config.AreaList.First=(struct jbNode *)temparea;
+
+         if(!temparea)
+            config.AreaList.Last=(struct jbNode *)prevarea;
+
 			config.changed=TRUE;
       }
+      else
+      {
+         prevarea=area;
+      }
 
       area=temparea;
    }
-- 
2.43.0


From d876c7f46b8756b8cc923a95e82c56e89c0351ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:44 +0000
Subject: [PATCH 50/79] fix: exported messages were marked as sent or deleted
 before they had been sent

---
 src/crashmail/mb_jam.c | 101 +++++++++++++++++++++++++++++------------
 src/crashmail/mb_msg.c |  90 ++++++++++++++++++++++++++++++------
 2 files changed, 146 insertions(+), 45 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 4391be7..5ab8d23 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -23,6 +23,17 @@ struct jam_Area
    bool newmsg;
 };
 
+/* An exported message that is to be marked as sent when the run succeeds */
+
+struct jam_Sent
+{
+   struct jam_Sent *Next;
+   struct Area *area;
+   uint32_t num;
+   bool killsent;
+};
+
+struct jbList jam_SentList;
 struct jbList jam_AreaList;
 struct openbase *jam_openbases;
 
@@ -190,6 +201,7 @@ bool jam_beforefunc(void)
    struct tm *tp;
 
    jbNewList(&jam_AreaList);
+   jbNewList(&jam_SentList);
 
    if(config.cfg_jam_MaxOpen == 0)
       config.cfg_jam_MaxOpen = 5;
@@ -213,10 +225,53 @@ bool jam_beforefunc(void)
    return(TRUE);
 }
 
+void jam_marksent(struct jam_Sent *js)
+{
+   struct jam_Area *ja;
+   s_JamMsgHeader Header_S;
+
+   if(!(ja=jam_getarea(js->area)))
+      return;
+
+   if(JAM_LockMB(ja->Base_PS,10))
+   {
+      LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",js->area->Path);
+      return;
+   }
+
+   if(JAM_ReadMsgHeader(ja->Base_PS,js->num-ja->BaseNum,&Header_S,NULL) == 0)
+   {
+      if(js->killsent)
+      {
+         /* Delete message with KILLSENT flag */
+
+         LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
+         Header_S.Attribute |= MSG_DELETED;
+      }
+
+      Header_S.Attribute |= MSG_SENT;
+
+      Header_S.DateProcessed = time(NULL);
+      Header_S.DateProcessed -= jam_utcoffset;
+
+      if(JAM_ChangeMsgHeader(ja->Base_PS,js->num-ja->BaseNum,&Header_S))
+         LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",js->num,js->area->Path);
+   }
+
+   JAM_UnlockMB(ja->Base_PS);
+}
+
 bool jam_afterfunc(bool success)
 {
    int c;
    struct jam_Area *ja;
+   struct jam_Sent *js;
+
+   if(success)
+      for(js=(struct jam_Sent *)jam_SentList.First;js;js=js->Next)
+         jam_marksent(js);
+
+   jbFreeList(&jam_SentList);
 
    if(success && (config.cfg_jam_Flags & CFG_JAM_HIGHWATER))
       for(ja=(struct jam_Area *)jam_AreaList.First;ja;ja=ja->Next)
@@ -684,6 +739,13 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    bool hasaddr;
    char flagsbuf[200],filesubject[200];
    uint16_t oldattr;
+   struct jam_Sent *js;
+
+   /* Already exported in this run? */
+
+   if(!isrescanning)
+      for(js=(struct jam_Sent *)jam_SentList.First;js;js=js->Next)
+         if(js->num == num && strcmp(js->area->Path,area->Path)==0) return(TRUE);
 
    /* Open the area */
 
@@ -1025,43 +1087,22 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       scan_total++;
 
-	   /* Update message header */
+      /* Not marked as sent or deleted until it really has been sent */
 
-		if(config.cfg_Flags & CFG_ALLOWKILLSENT)
-		{
-			if((oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
-			{
-				/* Delete message with KILLSENT flag */
-
-				LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
-		   	Header_S.Attribute |= MSG_DELETED;
-			}
-		}
-
-	   Header_S.Attribute |= MSG_SENT;
-
-      Header_S.DateProcessed = time(NULL);
-      Header_S.DateProcessed -= jam_utcoffset;
-
-      /* jam_openbases might have been changed in handlefunc */
-
-      if(!(ja=jam_getarea(area)))
+      if(!(js=osAllocCleared(sizeof(struct jam_Sent))))
       {
+         nomem=TRUE;
          mmFree(mm);
          return(FALSE);
       }
 
-      if(JAM_LockMB(ja->Base_PS,10))
-   	{
-      	LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",area->Path);
-         mmFree(mm);
-         return(FALSE);
-	   }
-
-      if(JAM_ChangeMsgHeader(ja->Base_PS,num-ja->BaseNum,&Header_S))
-         LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",num,area->Path);
+      jbAddNode(&jam_SentList,(struct jbNode *)js);
+      js->area=area;
+      js->num=num;
 
-      JAM_UnlockMB(ja->Base_PS);
+		if(config.cfg_Flags & CFG_ALLOWKILLSENT)
+			if((oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
+            js->killsent=TRUE;
    }
 
    mmFree(mm);
diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index a6dc9d7..830e442 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -10,6 +10,18 @@ struct msg_Area
    uint32_t HighWater;
 };
 
+/* An exported message that is to be marked as sent when the run succeeds */
+
+struct msg_Sent
+{
+   struct msg_Sent *Next;
+   struct Area *area;
+   uint32_t num;
+   bool killsent;
+   struct StoredMsg Msg;
+   struct MemMessage *mm; /* Only for WRITEBACK */
+};
+
 bool msg_GetHighLowMsg(struct msg_Area *area);
 bool msg_WriteHighWater(struct msg_Area *area);
 bool msg_WriteMSG(struct MemMessage *mm,char *file);
@@ -17,6 +29,7 @@ uint32_t msg_ReadCR(char *buf, uint32_t maxlen, osFile fh);
 bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning);
 
 struct jbList msg_AreaList;
+struct jbList msg_SentList;
 
 bool msg_messageend;
 bool msg_shortread;
@@ -50,13 +63,52 @@ struct msg_Area *msg_getarea(struct Area *area)
 bool msg_beforefunc(void)
 {
    jbNewList(&msg_AreaList);
+   jbNewList(&msg_SentList);
 
    return(TRUE);
 }
 
+void msg_MarkSent(struct msg_Sent *ms)
+{
+   char buf[200],buf2[50];
+   osFile fh;
+
+   sprintf(buf2,"%u.msg",ms->num);
+   MakeFullPath(ms->area->Path,buf2,buf,200);
+
+   if(ms->killsent)
+   {
+      /* Delete message with KILLSENT flag */
+
+      LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
+      osDelete(buf);
+   }
+   else if(ms->mm)
+   {
+      msg_WriteMSG(ms->mm,buf);
+   }
+   else if((fh=osOpen(buf,MODE_READWRITE)))
+   {
+      osWrite(fh,&ms->Msg,sizeof(struct StoredMsg));
+      osClose(fh);
+   }
+}
+
 bool msg_afterfunc(bool success)
 {
    struct msg_Area *ma;
+   struct msg_Sent *ms;
+
+   for(ms=(struct msg_Sent *)msg_SentList.First;ms;ms=ms->Next)
+   {
+      if(success)
+         msg_MarkSent(ms);
+
+      if(ms->mm)
+         mmFree(ms->mm);
+   }
+
+   jbFreeList(&msg_SentList);
 
    if(success && (config.cfg_msg_Flags & CFG_MSG_HIGHWATER))
       for(ma=(struct msg_Area *)msg_AreaList.First;ma;ma=ma->Next)
@@ -174,10 +226,17 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    struct MemMessage *mm;
 	uint16_t oldattr;
    struct msg_Area *ma;
+   struct msg_Sent *ms;
 
    if(!(ma=msg_getarea(area)))
       return(FALSE);
 
+   /* Already exported in this run? */
+
+   if(!isrescanning)
+      for(ms=(struct msg_Sent *)msg_SentList.First;ms;ms=ms->Next)
+         if(ms->num == num && strcmp(ms->area->Path,area->Path)==0) return(TRUE);
+
    if(!(mm=mmAlloc()))
       return(FALSE);
 
@@ -306,34 +365,35 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       scan_total++;
 
-      sprintf(buf2,"%u.msg",num);
-      MakeFullPath(area->Path,buf2,buf,200);
+      /* Not marked as sent or deleted until it really has been sent */
+
+      if(!(ms=osAllocCleared(sizeof(struct msg_Sent))))
+      {
+         nomem=TRUE;
+         mmFree(mm);
+         return(FALSE);
+      }
+
+      jbAddNode(&msg_SentList,(struct jbNode *)ms);
+      ms->area=area;
+      ms->num=num;
 
 		if((config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
 		{
-			/* Delete message with KILLSENT flag */
-
-			LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
-		   osDelete(buf);
+         ms->killsent=TRUE;
 		}
 		else
 		{
          ma->HighWater=num;
 
          Msg.Attr|=FLAG_SENT;
+         ms->Msg=Msg;
 
    	   if(config.cfg_msg_Flags & CFG_MSG_WRITEBACK)
       	{
          	mm->Attr=Msg.Attr;
-	         msg_WriteMSG(mm,buf);
-   	   }
-      	else
-	      {
-   	      if((fh=osOpen(buf,MODE_READWRITE)))
-      	   {
-         	   osWrite(fh,&Msg,sizeof(struct StoredMsg));
-            	osClose(fh);
-	         }
+            ms->mm=mm;
+            return(TRUE);
    	   }
 		}
    }
-- 
2.43.0


From 9f571153f38e3220f9a5b45f2688a0c82b7f4c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:59 +0000
Subject: [PATCH 51/79] fix: a flow file entry that could not be written, or
 followed an incomplete line, was lost

---
 src/crashmail/outbound.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 7e7e059..a16905d 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -484,6 +484,7 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 bool doAddFlow(char *filename,char *basename,char type,long mode)
 {
    char buf[200],letter,*prefix;
+   bool needlf;
    osFile fh;
 
    switch(type)
@@ -510,8 +511,17 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
       return(FALSE);
    }
 
+   needlf=FALSE;
+
    while(osFGets(fh,buf,200))
    {
+      /* The last line is incomplete if a write was interrupted */
+
+      needlf=TRUE;
+
+      if(buf[strlen(buf)-1]==10)
+         needlf=FALSE;
+
       striptrail(buf);
 
       if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
@@ -536,12 +546,12 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(mode == FLOW_DELETE)
       prefix="^";
 
+   if(needlf) osPuts(fh,"\n");
+
    if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
    else                         osFPrintf(fh,"%s%s\n",prefix,filename);
 
-   osClose(fh);
-
-   return(TRUE);
+   return(osClose(fh)); /* Not added if it couldn't be written */
 }
 
 /* Handles locking and MakeOrphan() */
-- 
2.43.0


From 75ccf232fb2516c12623de437e215cb1bbd13148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:37 +0000
Subject: [PATCH 52/79] fix: a packet was lost if the run was interrupted while
 it was being packed

---
 src/crashmail/outbound.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index a16905d..0165ea0 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -710,7 +710,15 @@ bool PackFile(char *file)
 				cnode->Node.Point,
 				cnode->Packer->Name);
 
-         osRename(file,pktname);
+         /* The packet is copied and not renamed so that it still is found by
+            the next run if the packing is interrupted */
+
+         if(!copyfile(file,pktname))
+         {
+            LogWrite(1,SYSTEMERR,"Failed to copy file \"%s\" to \"%s\"",file,pktname);
+				UnlockBasename(basename);
+				return(FALSE);
+         }
 
          if(config.cfg_BeforePack[0])
          {
@@ -719,7 +727,7 @@ bool PackFile(char *file)
 
             if(res != 0)
             {
-	            osRename(pktname,file);
+	            osDelete(pktname);
                LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
 	   			UnlockBasename(basename);
    				return(FALSE);
@@ -733,14 +741,15 @@ bool PackFile(char *file)
          {
 				UpdateFile(arcname);
 
-            osDelete(pktname);
-
             if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
                MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+
+            osDelete(pktname);
+            osDelete(file);
          }
          else
          {
-	         osRename(pktname,file);
+	         osDelete(pktname);
             LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
 				UnlockBasename(basename);
 				return(FALSE);
-- 
2.43.0


From ad8ca03a20a4292c341c6e6024689bcbd90546ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:57 +0000
Subject: [PATCH 53/79] fix: an unpacked echomail packet could be left in the
 outbound without a flow file entry

---
 src/crashmail/outbound.c | 56 +++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 0165ea0..96dd9bd 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -439,6 +439,14 @@ void HandleOrphan(char *name)
    mystrncpy(buf,name,200);
    buf[strlen(buf)-7]=0; /* Remove .orphan */
 
+   if(!osExists(buf))
+   {
+      /* Interrupted before the file was moved to the outbound, or already sent */
+
+      osDelete(name);
+      return;
+   }
+
    MakeBaseName(&n4d,basename);
 
 	if(!LockBasename(basename))
@@ -453,7 +461,7 @@ void HandleOrphan(char *name)
 	UnlockBasename(basename);
 }
 
-void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
+bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 {
    char buf[200];
    osFile fh;
@@ -466,7 +474,7 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",buf);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    sprintf(buf,"%s %d:%d/%d.%d",prinames[(int)type],n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
@@ -476,7 +484,8 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
    strcat(buf,"\n");
 
    osPuts(fh,buf);
-   osClose(fh);
+
+   return(osClose(fh));
 }
 
 /* Only call if file is already locked */
@@ -741,10 +750,17 @@ bool PackFile(char *file)
          {
 				UpdateFile(arcname);
 
+            osDelete(pktname);
+
             if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+               if(!MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE))
+               {
+                  /* Keep the packet and try again in the next run */
+
+                  UnlockBasename(basename);
+                  return(FALSE);
+               }
 
-            osDelete(pktname);
             osDelete(file);
          }
          else
@@ -765,22 +781,32 @@ bool PackFile(char *file)
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
+
+         type=PKTS_NORMAL; /* The node might have been removed from the configuration */
+
+         if(cnode)
+            type=cnode->EchomailPri;
 
-         if(!movefile(file,pktname))
+         strcpy(buf,pktname);
+         strcat(buf,".orphan");
+
+         /* The orphan file is there until the packet is in the flow file so
+            that the next run can add it if this one is interrupted */
+
+         if(!MakeOrphan(pktname,&n4d,type,FLOW_DELETE) || !movefile(file,pktname))
          {
             LogWrite(1,SYSTEMERR,"Failed to move file \"%s\" to \"%s\"",file,pktname);
+            osDelete(buf);
 				UnlockBasename(basename);
 				return(FALSE);
          }
-         else
-         {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
-         }
+
+         if(doAddFlow(pktname,basename,type,FLOW_DELETE))
+            osDelete(buf);
       }
    }
    else
-- 
2.43.0


From 1d61b8faa4fd472a735e781f307ad2d742b436f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 54/79] fix: netmail already waiting in the outbound was
 damaged, and new netmail deleted, when adding to it failed

---
 src/crashmail/outbound.c | 87 +++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 96dd9bd..4ba25f9 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -633,7 +633,9 @@ bool PackFile(char *file)
    struct Node4D n4d;
    char type;
 	char letter;
-	osFile ifh,ofh;
+	osFile ifh,ofh,oldfh;
+	off_t size;
+	bool success;
 
    /* Parse filename */
 
@@ -855,46 +857,77 @@ bool PackFile(char *file)
 			return(FALSE);
 		}
 		
-		if(osExists(buf))
+		/* A new file is written and then takes the place of the old one, which
+		   thus stays intact if something fails */
+
+		strcpy(buf2,buf);
+		strcat(buf2,".tmp");
+
+		if(!(ofh=osOpen(buf2,MODE_NEWFILE)))
 		{
-			if(!(ofh=osOpen(buf,MODE_READWRITE)))
+			uint32_t err=osError();
+			LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",buf2);
+			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
+			osClose(ifh);
+			osFree(copybuf);
+			UnlockBasename(basename);
+			return(FALSE);
+		}
+
+		success=TRUE;
+
+		if((oldfh=osOpen(buf,MODE_OLDFILE)))
+		{
+			/* Copy everything but the terminating zeros */
+
+			osSeek(oldfh,0,OFFSET_END);
+			size=osFTell(oldfh);
+			osSeek(oldfh,0,OFFSET_BEGINNING);
+
+			if(size > SIZE_PKTHEADER)
 			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
+				osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
+				size-=2;
+
+				while(size > 0 && (readlen=osRead(oldfh,copybuf,size < COPYBUFSIZE ? size : COPYBUFSIZE)))
+				{
+					if(!osWrite(ofh,copybuf,readlen))
+						success=FALSE;
+
+					size-=readlen;
+				}
+
+				if(size != 0)
+					success=FALSE;
 			}
 
-			osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
-			osSeek(ofh,-2,OFFSET_END);
+			osClose(oldfh);
 		}
-		else
+		else if(osExists(buf))
 		{
-			if(!(ofh=osOpen(buf,MODE_NEWFILE)))
-			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
-			}
+			success=FALSE;
 		}
 
-		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
+		while(success && (readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
 		{
 			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
+				success=FALSE;
 		}
-				
+
 		osClose(ifh);
-		osClose(ofh);
 		osFree(copybuf);
 
+		if(!osClose(ofh))
+			success=FALSE;
+
+		if(!success || !osRename(buf2,buf))
+		{
+			LogWrite(1,SYSTEMERR,"Failed to write to \"%s\"",buf);
+			osDelete(buf2);
+			UnlockBasename(basename);
+			return(FALSE);
+		}
+
 		osDelete(file);
    }
 
-- 
2.43.0


From e9aaedba5a7a10598cf927ef44e3a26d8dc394bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 55/79] fix: a packer or unpacker that was killed counted as
 successful

---
 src/oslib_linux/osmisc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oslib_linux/osmisc.c b/src/oslib_linux/osmisc.c
index 15b0989..3c47597 100644
--- a/src/oslib_linux/osmisc.c
+++ b/src/oslib_linux/osmisc.c
@@ -46,6 +46,9 @@ int osExecute(char *cmd)
 	
    res=system(cmd);
 
+   if(res == -1 || !WIFEXITED(res))
+      return(127); /* Could not be started or was killed by a signal */
+
    return WEXITSTATUS(res);
 }
 
-- 
2.43.0


From 4d23712da593cc710897a69cc773280bfd72bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 56/79] fix: packets of two runs in the same second had the
 same name and replaced each other in the bundle

---
 src/crashmail/pkt.c      | 18 ++++++++++--------
 src/oslib/osmisc.h       |  1 +
 src/oslib_linux/osmisc.c | 12 ++++++++++++
 src/oslib_win32/osmisc.c | 15 +++++++++++++++
 4 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 2530f1f..e17a994 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -558,8 +558,7 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-time_t lastt;
-uint32_t serial;
+uint32_t lastpktnum;
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
@@ -570,14 +569,17 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
    struct tm *tp;
    uint8_t PktHeader[SIZE_PKTHEADER];
 
+   /* Every number is used only once, also if several runs are made in the same
+      second: a packet must not replace one with the same name in a bundle */
+
+   if(lastpktnum == 0)
+      lastpktnum=osTicks();
+
    do
    {
-      t=time(NULL);
-      if(t == lastt) serial++;
-      else serial=0;
-      if(serial == 256) serial=0;
-      lastt=t; 
-      num = (t<<8) + serial;
+      while((num=osTicks()) == lastpktnum);
+      lastpktnum=num;
+
       sprintf(buf2,"%08x.newpkt",num);
       
       MakeFullPath(config.cfg_PacketCreate,buf2,buf,100);
diff --git a/src/oslib/osmisc.h b/src/oslib/osmisc.h
index 204ea4f..33bee85 100644
--- a/src/oslib/osmisc.h
+++ b/src/oslib/osmisc.h
@@ -14,6 +14,7 @@ bool osDelete(char *file);
 
 bool osMkDir(char *dir);
 void osSleep(int secs);
+uint32_t osTicks(void);
 
 uint32_t osError(void);
 char *osErrorMsg(uint32_t errnum);
diff --git a/src/oslib_linux/osmisc.c b/src/oslib_linux/osmisc.c
index 3c47597..925353f 100644
--- a/src/oslib_linux/osmisc.c
+++ b/src/oslib_linux/osmisc.c
@@ -12,6 +12,7 @@
 
 #include <sys/stat.h>
 #include <sys/wait.h>
+#include <sys/time.h>
 
 #include <unistd.h>
 
@@ -91,6 +92,17 @@ void osSleep(int secs)
    sleep(secs);
 }
 
+/* Current time in units of 1/256 second, wraps around */
+
+uint32_t osTicks(void)
+{
+   struct timeval tv;
+
+   gettimeofday(&tv,NULL);
+
+   return ((uint32_t)tv.tv_sec << 8) + (uint32_t)(tv.tv_usec*256/1000000);
+}
+
 char *osErrorMsg(uint32_t errnum)
 {
 	return (char *)strerror(errnum);
diff --git a/src/oslib_win32/osmisc.c b/src/oslib_win32/osmisc.c
index 8e6c5dd..888b598 100644
--- a/src/oslib_win32/osmisc.c
+++ b/src/oslib_win32/osmisc.c
@@ -83,6 +83,21 @@ void osSleep(int secs)
    Sleep(secs*1000);
 }
 
+/* Current time in units of 1/256 second, wraps around */
+
+uint32_t osTicks(void)
+{
+   FILETIME ft;
+   ULARGE_INTEGER t;
+
+   GetSystemTimeAsFileTime(&ft);
+
+   t.LowPart=ft.dwLowDateTime;
+   t.HighPart=ft.dwHighDateTime;
+
+   return (uint32_t)(t.QuadPart/1000*256/10000);
+}
+
 char *osErrorMsg(ulong errnum)
 {
    char charbuf[1000];
-- 
2.43.0


From 0acafe4a701b5e7e8d180f221bbd31012c6c9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:19 +0000
Subject: [PATCH 57/79] fix: a JAM base that cannot be opened was recreated
 empty; a half-created one was never usable again

---
 src/crashmail/mb_jam.c | 56 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 5ab8d23..abc28aa 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -42,6 +42,49 @@ long jam_utcoffset;
 
 int jam_linkmb(struct Area *area,uint32_t oldnum);
 
+/* Returns TRUE if there is no messagebase with this name yet. A header file
+   that does not even contain the base header was left behind by a run that
+   was interrupted when it created the messagebase. */
+
+bool jam_nobase(char *path)
+{
+   char buf[250];
+   osFile fh;
+   bool nobase;
+
+   snprintf(buf,sizeof(buf),"%s%s",path,EXT_IDXFILE);
+
+   if(osExists(buf))
+   {
+      if(!(fh=osOpen(buf,MODE_OLDFILE)))
+         return(FALSE);
+
+      osSeek(fh,0,OFFSET_END);
+      nobase=(osFTell(fh) == 0);
+      osClose(fh);
+
+      if(!nobase)
+         return(FALSE);
+   }
+
+   snprintf(buf,sizeof(buf),"%s%s",path,EXT_HDRFILE);
+
+   if(osExists(buf))
+   {
+      if(!(fh=osOpen(buf,MODE_OLDFILE)))
+         return(FALSE);
+
+      osSeek(fh,0,OFFSET_END);
+      nobase=(osFTell(fh) < 1024);
+      osClose(fh);
+
+      if(!nobase)
+         return(FALSE);
+   }
+
+   return(TRUE);
+}
+
 s_JamBase *jam_openbase(struct jam_Area *area)
 {
    int c;
@@ -81,10 +124,17 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 
    /* Open area */
 
-   if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
+   if(!jam_nobase(area->area->Path))
+   {
+      if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
+      {
+         if(thisbase->Base_PS) free(thisbase->Base_PS);
+         LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
+         return(NULL);
+      }
+   }
+   else
    {
-      if(thisbase->Base_PS) free(thisbase->Base_PS);
-
       LogWrite(2,SYSTEMINFO,"Creating JAM messagebase \"%s\"",area->area->Path);
 
       if(JAM_CreateMB(area->area->Path,1,&thisbase->Base_PS))
-- 
2.43.0


From 39b87f1da6d76056febd9f0ba36a39ec9a332213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:53 +0000
Subject: [PATCH 58/79] fix: an interrupted or failing write of the statistics
 file stopped all later runs

---
 src/crashmail/stats.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/stats.c b/src/crashmail/stats.c
index 12fffcc..6f2e922 100644
--- a/src/crashmail/stats.c
+++ b/src/crashmail/stats.c
@@ -41,11 +41,16 @@ bool WriteStats(char *file)
    struct DiskNodeStats dnstat;
    osFile fh;
    uint32_t areas,nodes;
+   char tmp[120];
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   /* The old file remains in force until the new one is complete */
+
+   snprintf(tmp,sizeof(tmp),"%s.tmp",file);
+
+   if(!(fh=osOpen(tmp,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",file);
+      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",tmp);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return(FALSE);
    }
@@ -109,7 +114,12 @@ bool WriteStats(char *file)
       osWrite(fh,&dnstat,sizeof(struct DiskNodeStats));
    }
 
-   osClose(fh);
+   if(!osClose(fh) || !osRename(tmp,file))
+   {
+      LogWrite(1,SYSTEMERR,"Failed to write %s",file);
+      osDelete(tmp);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From fbc3438a9b7d3d05b158c6c8435055ae9064f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:53 +0000
Subject: [PATCH 59/79] fix: highwater mark in 1.msg was left empty when it
 could not be written

---
 src/crashmail/mb_msg.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 830e442..a1c8240 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -464,7 +464,7 @@ bool msg_GetHighLowMsg(struct msg_Area *area)
 bool msg_WriteHighWater(struct msg_Area *area)
 {
    osFile fh;
-   char buf[200];
+   char buf[200],tmp[210];
    struct StoredMsg Msg;
 
    if(area->HighWater > 65535)
@@ -496,8 +496,9 @@ bool msg_WriteHighWater(struct msg_Area *area)
    Msg.NextReply=0;
 
    MakeFullPath(area->area->Path,"1.msg",buf,200);
+   snprintf(tmp,sizeof(tmp),"%s.tmp",buf);
 
-   if(!(fh=osOpen(buf,MODE_NEWFILE)))
+   if(!(fh=osOpen(tmp,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to write Highwater mark to %s",buf);
@@ -511,10 +512,12 @@ bool msg_WriteHighWater(struct msg_Area *area)
    if(!osWrite(fh,"",1))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
-
-   if(ioerror)
+   if(!osClose(fh) || ioerror || !osRename(tmp,buf))
+   {
+      LogWrite(1,SYSTEMERR,"Failed to write Highwater mark to %s",buf);
+      osDelete(tmp);
       return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From 1e0b280ea5cb80767b21f1d518549c6e7abf00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 60/79] fix: commands with received file names were open to the
 shell and overflowed their buffers; long or unterminated kludges damaged RFC
 files

---
 src/crashmail/misc.c     | 127 ++++++++++++++++++++++++---------------
 src/crashmail/outbound.c |  10 +--
 src/crashmail/pkt.c      |   4 +-
 src/crashmail/toss.c     |   5 +-
 4 files changed, 88 insertions(+), 58 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 7429604..aa2b20b 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -1,34 +1,67 @@
 #include "crashmail.h"
 
+/* Appends str to dest, which is never filled beyond destsize */
+
+static void ExpandAdd(char *dest,uint32_t destsize,uint32_t *pos,char *str)
+{
+   while(*str && *pos < destsize-1)
+      dest[(*pos)++]=*(str++);
+
+   dest[*pos]=0;
+}
+
+/* Appends the name of a file. Names of received files can contain anything,
+   characters with a special meaning are quoted for the shell. */
+
+static void ExpandAddFile(char *dest,uint32_t destsize,uint32_t *pos,char *str)
+{
+   char buf[3];
+   int c;
+
+   while(*str)
+   {
+      c=0;
+
+      if(!isalnum((unsigned char)*str) && (unsigned char)*str < 128 && !strchr("/._-+:,=@%~",*str))
+         buf[c++]='\\';
+
+      buf[c++]=*(str++);
+      buf[c]=0;
+
+      ExpandAdd(dest,destsize,pos,buf);
+   }
+}
+
 void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *arc,char *file)
 {
    uint32_t c,d;
+   char buf[2];
 
    d=0;
+   dest[0]=0;
+   buf[1]=0;
+
    for(c=0;c<strlen(cmd);c++)
    {
       if(cmd[c]=='%' && (cmd[c+1]|32)=='a')
       {
-         strncpy(&dest[d],arc,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAddFile(dest,destsize,&d,arc);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='f')
       {
-         strncpy(&dest[d],file,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAddFile(dest,destsize,&d,file);
          c++;
       }
-      else if(cmd[c]=='%' && cmd[c+1]!=0)
+      else
       {
-         dest[d++]=cmd[c+1];
-         c++;
+         if(cmd[c]=='%' && cmd[c+1]!=0)
+            c++;
+
+         buf[0]=cmd[c];
+         ExpandAdd(dest,destsize,&d,buf);
       }
-      else dest[d++]=cmd[c];
    }
-   dest[d]=0;
 }
 
 void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
@@ -44,88 +77,73 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
    char *destnode)
 {
    uint32_t c,d;
+   char buf[2];
 
    d=0;
+   dest[0]=0;
+   buf[1]=0;
+
    for(c=0;c<strlen(cmd);c++)
    {
       if(cmd[c]=='%' && (cmd[c+1])=='a')
       {
-         strncpy(&dest[d],area,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,area);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1])=='r')
       {
-         strncpy(&dest[d],rfc1,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,rfc1);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1])=='R')
       {
-         strncpy(&dest[d],rfc2,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,rfc2);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='m')
       {
-         strncpy(&dest[d],msg,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,msg);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='s')
       {
-         strncpy(&dest[d],subj,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,subj);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='x')
       {
-         strncpy(&dest[d],date,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,date);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='f')
       {
-         strncpy(&dest[d],from,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,from);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='t')
       {
-         strncpy(&dest[d],to,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,to);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='o')
       {
-         strncpy(&dest[d],orignode,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,orignode);
          c++;
       }
       else if(cmd[c]=='%' && (cmd[c+1]|32)=='d')
       {
-         strncpy(&dest[d],destnode,(size_t)(destsize-1-d));
-         dest[destsize-1]=0;
-         d=strlen(dest);
+         ExpandAdd(dest,destsize,&d,destnode);
          c++;
       }
-      else if(cmd[c]=='%' && cmd[c+1]!=0)
+      else
       {
-         dest[d++]=cmd[c+1];
-         c++;
+         if(cmd[c]=='%' && cmd[c+1]!=0)
+            c++;
+
+         buf[0]=cmd[c];
+         ExpandAdd(dest,destsize,&d,buf);
       }
-      else dest[d++]=cmd[c];
    }
-   dest[d]=0;
 }
 
 int DateCompareFE(const void *f1, const void *f2)
@@ -752,19 +770,21 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13 && tmp->Data[d]!=10;d++);
-         if(tmp->Data[d]==13 || tmp->Data[d]==10) d++;
 
-         if(tmp->Data[c]==1 && d-c-2!=0)
+         if(tmp->Data[c]==1 && d-c > 1)
          {
 				if(!osPuts(fh,"X-Fido-"))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
-				if(!osWrite(fh,&tmp->Data[c+1],d-c-2))
+				if(!osWrite(fh,&tmp->Data[c+1],d-c-1))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
             if(!osPuts(fh,"\n"))
 					{ ioerror=TRUE; ioerrornum=osError(); }
          }
+
+         if(tmp->Data[d]==13 || tmp->Data[d]==10) d++;
+
          c=d;
       }
    }
@@ -782,6 +802,15 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
 
       while(d<tmp->Length)
       {
+         if(tmp->Data[d]==1)
+         {
+            /* Skip all of the kludge line */
+
+            while(d<tmp->Length && tmp->Data[d]!=13) d++;
+            if(tmp->Data[d]==13) d++;
+            continue;
+         }
+
          lastspace=0;
          c=0;
 
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 4ba25f9..82d7562 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -627,7 +627,7 @@ void UpdateFile(char *name)
 
 bool PackFile(char *file)
 {
-   char basename[200],arcname[200],pktname[200],buf[200],buf2[200],*copybuf;
+   char basename[200],arcname[200],pktname[200],buf[200],buf2[200],cmdbuf[600],*copybuf;
    uint32_t jbcpos,readlen;
    int c,res;
    struct Node4D n4d;
@@ -733,8 +733,8 @@ bool PackFile(char *file)
 
          if(config.cfg_BeforePack[0])
          {
-            ExpandPacker(config.cfg_BeforePack,buf,200,arcname,pktname);
-            res=osExecute(buf);
+            ExpandPacker(config.cfg_BeforePack,cmdbuf,600,arcname,pktname);
+            res=osExecute(cmdbuf);
 
             if(res != 0)
             {
@@ -745,8 +745,8 @@ bool PackFile(char *file)
             }
          }
 
-         ExpandPacker(cnode->Packer->Packer,buf,200,arcname,pktname);
-         res=osExecute(buf);
+         ExpandPacker(cnode->Packer->Packer,cmdbuf,600,arcname,pktname);
+         res=osExecute(cmdbuf);
 
          if(res == 0)
          {
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index e17a994..b332728 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -79,7 +79,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    struct Aka *tmpaka;
    struct ConfigNode *tmpcnode;
    uint32_t msgnum,msgoffset;
-   char buf[200];
+   char buf[400];
    uint8_t PktHeader[SIZE_PKTHEADER];
    uint8_t PktMsgHeader[SIZE_PKTMSGHEADER];
    struct Node4D PktOrig,PktDest;
@@ -91,7 +91,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 
    if(config.cfg_BeforeToss[0])
    {
-      ExpandPacker(config.cfg_BeforeToss,buf,200,"",pkt);
+      ExpandPacker(config.cfg_BeforeToss,buf,400,"",pkt);
       res=osExecute(buf);
 
       if(res != 0)
diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 7eafcbc..e0139ce 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -42,6 +42,7 @@ struct Packer *DetectPacker(char *file)
       return(NULL);
    }
 
+   memset(buf,0,sizeof(buf));
    osRead(fh,buf,40);
    osClose(fh);
 
@@ -81,7 +82,7 @@ void LogTossResults(void)
 bool TossBundle(char *file,struct osFileEntry *fe)
 {
    struct Packer *tmppacker;
-   char buf[200],buf2[100];
+   char buf[200],buf2[400];
    struct jbList FEList;
    struct osFileEntry *pktfe,*safedel;
    int arcres;
@@ -104,7 +105,7 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    LogWrite(2,TOSSINGINFO,"Unarchiving %s using %s",file,tmppacker->Name);
    printf("\n");
 
-   ExpandPacker(tmppacker->Unpacker,buf2,100,file,"");
+   ExpandPacker(tmppacker->Unpacker,buf2,400,file,"");
 
    arcres=osChDirExecute(config.cfg_TempDir,buf2);
    printf("\n");
-- 
2.43.0


From e9aa5b831381c3fc922e6dd7a9744406f8a0bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 61/79] fix: long bounce reasons were not terminated

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index a57c269..9bec043 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -957,7 +957,7 @@ bool Bounce(struct MemMessage *mm,char *reason,bool headeronly)
    if(config.cfg_Flags & CFG_ADDTID)
       AddTID(tmpmm);
 
-   strncpy(buf,reason,390);
+   mystrncpy(buf,reason,390);
    strcat(buf,"\x0d\x0d");
 
    mmAddLine(tmpmm,buf);
-- 
2.43.0


From 89575fb044a8dbd8ed0be865b54897a60a34a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 62/79] fix: filter commands: shell metacharacters from
 messages in EXECUTE, lost line end and overflows in REMAPMSG and MASQUERADE,
 failed COPY ignored

---
 src/crashmail/filter.c | 66 ++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 651cac9..1daff22 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -563,6 +563,7 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    struct TextChunk *tmp;
    struct jbList oldlist;
    char buf[200];
+   bool res;
 
    LogWrite(4,TOSSINGINFO,"Filter: Copying message to area %s",tagname);
 
@@ -586,16 +587,18 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    for(tmp=(struct TextChunk *)oldlist.First;tmp;tmp=tmp->Next)
       mmAddBuf(&mm->TextChunks,tmp->Data,tmp->Length);
 
-   if(!((*area->Messagebase->importfunc)(mm,area)))
-      return(FALSE);
-
-   area->NewTexts++;
+   res=(*area->Messagebase->importfunc)(mm,area);
 
    jbFreeList(&mm->TextChunks);
 
    mm->TextChunks.First=oldlist.First;
    mm->TextChunks.Last=oldlist.Last;
 
+   if(!res)
+      return(FALSE);
+
+   area->NewTexts++;
+
    return(TRUE);
 }
 
@@ -636,12 +639,29 @@ bool Filter_WriteLog(struct MemMessage *mm,char *cmd)
    return(TRUE);
 }
 
+/* Copies text from a message for use in a command line. Characters that could
+   make the shell execute something else than the configured command are
+   replaced. */
+
+static char *filter_safestr(char *dest,char *src,uint32_t destsize)
+{
+   uint32_t c;
+
+   mystrncpy(dest,src,destsize);
+
+   for(c=0;dest[c];c++)
+      if((unsigned char)dest[c] < 32 || dest[c] == 127 || strchr("`$\\\"';&|<>(){}",dest[c]))
+         dest[c]='_';
+
+   return(dest);
+}
+
 bool Filter_Execute(struct MemMessage *mm,char *cmd)
 {
    bool msg,rfc1,rfc2;
    char msgbuf[L_tmpnam],rfcbuf1[L_tmpnam],rfcbuf2[L_tmpnam];
    char origbuf[30],destbuf[30];
-   char buf[400];
+   char buf[800],area[80],subj[72],date[20],from[36],to[36];
 	int arcres;
 
    msg=FALSE;
@@ -668,15 +688,15 @@ bool Filter_Execute(struct MemMessage *mm,char *cmd)
 
    Print4D(&mm->DestNode,destbuf);
 
-   ExpandFilter(cmd,buf,400,
+   ExpandFilter(cmd,buf,800,
  	   rfcbuf1,
       rfcbuf2,
       msgbuf,
-		mm->Area,
-      mm->Subject,
-      mm->DateTime,
-      mm->From,
-      mm->To,
+      filter_safestr(area,mm->Area,80),
+      filter_safestr(subj,mm->Subject,72),
+      filter_safestr(date,mm->DateTime,20),
+      filter_safestr(from,mm->From,36),
+      filter_safestr(to,mm->To,36),
       origbuf,
       destbuf);
 
@@ -745,7 +765,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    struct Route *tmproute;
    struct jbList oldlist;
    struct TextChunk *tmp;
-   char buf[100];
+   char buf[200];
    char oldto[36],newto[36];
    struct Node4D olddest4d,newdest4d,my4d;
    uint32_t c,d;
@@ -763,7 +783,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    ExpandNodePat(destpat,&mm->DestNode,&newdest4d);
 
    if(strcmp(namepat,"*")==0) strcpy(newto,mm->To);
-   else                       strcpy(newto,namepat);
+   else                       mystrncpy(newto,namepat,36);
 
    my4d.Zone=0;
    my4d.Net=0;
@@ -838,7 +858,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
 
 	mmAddLine(mm,buf);
 
-   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%ud",
+   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%u\x0d",
       oldto,
       olddest4d.Zone,
       olddest4d.Net,
@@ -870,7 +890,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	ExpandNodePat(destpat,&mm->OrigNode,&neworig4d);
 
     if(strcmp(namepat,"*")==0) strcpy(newfrom,mm->From);
-    else                       strcpy(newfrom,namepat);
+    else                       mystrncpy(newfrom,namepat,36);
 	strcpy (mm->From, newfrom);
 
 	LogWrite(4,SYSTEMINFO, "Filter: Masquerade message as %s at %u:%u/%u.%u",
@@ -886,11 +906,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	char * separator = strchr (mm->MSGID, ' ');
 	if (separator)
 	{
-		char str[80];
-		strncpy (str, separator + 1, 80);
+		char str[100];
+		mystrncpy (str, separator + 1, 80);
 		snprintf (mm->MSGID, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 		// update kludge
-		snprintf(str, 80, "\x01MSGID: %s\x0d",mm->MSGID);
+		snprintf(str, 100, "\x01MSGID: %s\x0d",mm->MSGID);
      	mmAddBuf(&mm->TextChunks, str, strlen(str));
 	}	
 
@@ -900,11 +920,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		separator = strchr (mm->REPLY, ' ');
 		if (separator)
 		{
-			char str[80];
-			strncpy (str, separator + 1, 80);
+			char str[100];
+			mystrncpy (str, separator + 1, 80);
 			snprintf (mm->REPLY, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 			// update kludge
-			snprintf(str, 80, "\x01REPLY: %s\x0d",mm->REPLY);
+			snprintf(str, 100, "\x01REPLY: %s\x0d",mm->REPLY);
 		 	mmAddBuf(&mm->TextChunks, str, strlen(str));
 		}	
 	}
@@ -1041,7 +1061,9 @@ bool Filter(struct MemMessage *mm)
 						break;
 
 					case COMMAND_COPY:
-						Filter_Copy(mm,command->string);
+						if(!Filter_Copy(mm,command->string))
+							return(FALSE);
+
 						break;
 
                case COMMAND_EXECUTE:
-- 
2.43.0


From e89eb28611f36b8793a9e08c34c19546b62aded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:01 +0000
Subject: [PATCH 63/79] fix: filter variables for the destination used the
 packet header for echomail, MASQUERADE replaced the wrong brackets of an
 Origin line

---
 src/crashmail/filter.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 1daff22..390bcbd 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -266,7 +266,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
    char var[100],operator[2],data[100];
    int opn,datan,res;
    int c,d;
-   struct Node4D from4d,fromboss,toboss;
+   struct Node4D from4d,fromboss,to4d,toboss;
 
    /* Parse statement */
 
@@ -303,7 +303,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          data[strlen(data)-1]=0;
    }
 
-	/* Set real fromaddr and fromboss, toboss */
+	/* Set real fromaddr, toaddr and fromboss, toboss. Echomail has no toaddr. */
 
    if(filter_mm->Area[0] == 0) Copy4D(&from4d,&filter_mm->OrigNode);
    else                        Copy4D(&from4d,&filter_mm->Origin4D);
@@ -311,7 +311,12 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
    Copy4D(&fromboss,&from4d);
    fromboss.Point=0;
 
-   Copy4D(&toboss,&filter_mm->DestNode);
+   memset(&to4d,0,sizeof(to4d));
+
+   if(filter_mm->Area[0] == 0)
+      Copy4D(&to4d,&filter_mm->DestNode);
+
+   Copy4D(&toboss,&to4d);
    toboss.Point=0;
 
    /* Make local variables */
@@ -330,10 +335,10 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
 
    for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
    {
-      if(Compare4D(&filter_mm->DestNode,&aka->Node)==0) tolocalaka=TRUE;
+      if(Compare4D(&to4d,&aka->Node)==0) tolocalaka=TRUE;
       if(Compare4D(&from4d,&aka->Node)==0)              fromlocalaka=TRUE;
 
-      if(filter_mm->DestNode.Point != 0)
+      if(to4d.Point != 0)
          if(Compare4D(&aka->Node,&toboss)==0 && aka->Node.Point==0) tolocalpoint=TRUE;
 
       if(from4d.Point != 0)
@@ -345,7 +350,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
       if(Compare4D(&cnode->Node,&from4d)==0)   existscfg_fromaddr=TRUE;
       if(Compare4D(&cnode->Node,&fromboss)==0) existscfg_fromboss=TRUE;
 
-      if(Compare4D(&cnode->Node,&filter_mm->DestNode)==0) existscfg_toaddr=TRUE;
+      if(Compare4D(&cnode->Node,&to4d)==0) existscfg_toaddr=TRUE;
       if(Compare4D(&cnode->Node,&toboss)==0)              existscfg_toboss=TRUE;
    }
 
@@ -375,7 +380,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
       return filter_comparenode("FROMADDR",&from4d,operator,data,opn,datan,errpos,errstr);
 
    if(stricmp(var,"TOADDR")==0)
-      return filter_comparenode("TOADDR",&filter_mm->DestNode,operator,data,opn,datan,errpos,errstr);
+      return filter_comparenode("TOADDR",&to4d,operator,data,opn,datan,errpos,errstr);
 
    if(stricmp(var,"FROMNAME")==0)
       return filter_comparestring("FROMNAME",filter_mm->From,operator,data,opn,datan,errpos,errstr);
@@ -456,7 +461,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
 
    if(stricmp(var,"EXISTSNL_TOADDR")==0)
    {
-      res=filter_nllookup(&filter_mm->DestNode);
+      res=filter_nllookup(&to4d);
 
       if(res == -1)
       {
@@ -951,12 +956,12 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 				char * s = &tmp->Data[c]; size_t len = d-c;
 				if(strncmp(s," * Origin", 9)==0)
 				{	
-					char * leftBracket;
-					leftBracket = (char *)memchr (s+9, '(', len-9);
-					if (leftBracket)
+					char * leftBracket; // the address is in the last brackets
+					for (leftBracket = s+len-1; leftBracket > s+8 && *leftBracket != '('; leftBracket--);
+					if (*leftBracket == '(')
 					{
 						char * rightBracket;
-						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s));
+						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s)-1);
 						if (rightBracket)
 						{	
 							mmAddBuf(&mm->TextChunks, s, leftBracket-s+1); // before address
-- 
2.43.0


From e6547954b07c36d136265a3dce24b76faaa3c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:12 +0000
Subject: [PATCH 64/79] fix: nodelist index: end marker answered 0:0/0, lists
 whose name is a prefix were taken, points after Down nodes, damaged indexes

---
 src/cmnllib/cmnllib.c    | 14 +++++++++-----
 src/tools/crashgetnode.c |  2 +-
 src/tools/crashlist.c    | 26 ++++++++++++++++++--------
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index 4fd74da..60383fe 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -34,10 +34,10 @@ uint16_t cmnlgetuword(uint8_t *buf,uint32_t offset)
 
 uint32_t cmnlgetlong(uint8_t *buf,uint32_t offset)
 {
-   return (long) buf[offset]+
-				 	  buf[offset+1]*256+
-					  buf[offset+2]*256*256+
-					  buf[offset+3]*256*256*256;
+   return (uint32_t) buf[offset]+
+				 	  (uint32_t) buf[offset+1]*256+
+					  (uint32_t) buf[offset+2]*256*256+
+					  (uint32_t) buf[offset+3]*256*256*256;
 }
 
 osFile cmnlOpenNL(char *dir)
@@ -53,6 +53,7 @@ osFile cmnlOpenNL(char *dir)
 		return(NULL);
 	}	
 
+	memset(buf,0,5);
 	osRead(fh,buf,4);
 	buf[4]=0;
 	
@@ -92,6 +93,7 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 			return(FALSE);
 		}
 
+		nlname[99]=0;
 		idx.offset=0;
 
 		while(!found && idx.offset != 0xffffffff)
@@ -117,6 +119,8 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 			if(cmnlidx->net   != idx.net)   found=FALSE;
 			if(cmnlidx->node  != idx.node)  found=FALSE;
 			if(cmnlidx->point != idx.point) found=FALSE;
+
+			if(idx.offset == 0xffffffff) found=FALSE; /* End marker */
 		}
 	}
 
@@ -137,7 +141,7 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 	}
 
 	osSeek(fh,idx.offset,OFFSET_BEGINNING);
-	osFGets(fh,line,len);	
+	if(!osFGets(fh,line,len)) line[0]=0;
 	osClose(fh);
 
 	return(TRUE);	
diff --git a/src/tools/crashgetnode.c b/src/tools/crashgetnode.c
index e152805..299d72d 100644
--- a/src/tools/crashgetnode.c
+++ b/src/tools/crashgetnode.c
@@ -29,7 +29,7 @@ bool nomem,diskfull;
 void strip(char *str)
 {                                                                                  int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) str[c]=0;
+   for(c=strlen(str)-1;c>=0 && str[c] < 33;c--) str[c]=0;
 }
                                                                   
 int main(int argc, char **argv)
diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index c0bc4f4..ca1bbf8 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -77,9 +77,9 @@ bool isnodelistending(char *name)
 
    if(name[strlen(name)-4]!='.') return(FALSE);
 
-   if(!isdigit(name[strlen(name)-3]))   return(FALSE);
-   if(!isdigit(name[strlen(name)-2]))   return(FALSE);
-   if(!isdigit(name[strlen(name)-1]))   return(FALSE);
+   if(!isdigit((unsigned char)name[strlen(name)-3]))   return(FALSE);
+   if(!isdigit((unsigned char)name[strlen(name)-2]))   return(FALSE);
+   if(!isdigit((unsigned char)name[strlen(name)-1]))   return(FALSE);
 
    return(TRUE);
 }
@@ -91,7 +91,7 @@ void scandirfunc(char *file)
 
 	if(isnodelistending(file))
    {
-   	if(strnicmp(file,findfile,strlen(file)-4)==0)
+   	if(strlen(file)-4 == strlen(findfile) && strnicmp(file,findfile,strlen(file)-4)==0)
       {
 			MakeFullPath(finddir,file,buf,500);
 			
@@ -143,7 +143,7 @@ bool FindList(char *dir,char *file,char *dest)
 void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 {
 	struct idx idx;
-	char buf[500];
+	char buf[500],name[100];
 	osFile nfh;
 	
 	if(!FindList(dir,file,buf))
@@ -157,9 +157,10 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 		return;
 	}
 
-	strcpy(buf,(char *)GetFilePart(buf));
-	printf("Processing nodelist %s...\n",buf);
-	osWrite(ifh,buf,100);
+	memset(name,0,sizeof(name));
+	mystrncpy(name,(char *)GetFilePart(buf),100);
+	printf("Processing nodelist %s...\n",name);
+	osWrite(ifh,name,100);
 
 	idx.zone=defzone;
 	idx.net=0;
@@ -232,6 +233,14 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 			WriteIdx(ifh,&idx);
 		}
 
+		if(strnicmp(buf,"Down,",5)==0)
+		{
+			/* Not usable, but points that follow don't belong to the previous node */
+
+			idx.node=atoi(&buf[5]);
+			idx.point=0;
+		}
+
 		if(strnicmp(buf,"Point,",6)==0)
 		{
 			idx.point=atoi(&buf[6]);
@@ -250,6 +259,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 	idx.offset=0xffffffff;
 
 	WriteIdx(ifh,&idx);
+	osClose(nfh);
 }
 
 int main(int argc, char **argv)
-- 
2.43.0


From 94f280c4ab2f9775fbd1b8128bba34f76e88fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 65/79] fix: outbound lister printed all sizes as 0M, left
 packets out of the totals, read past numbers in patterns and misreported
 files to be deleted; area exporter lost links after 1000 characters

---
 src/tools/crashexport.c  |  4 ++--
 src/tools/crashlistout.c | 25 ++++++++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/tools/crashexport.c b/src/tools/crashexport.c
index 5abe393..d288b4a 100644
--- a/src/tools/crashexport.c
+++ b/src/tools/crashexport.c
@@ -29,7 +29,7 @@ char cfgbuf[4000];
 #define AREATYPE_BAD       4
 #define AREATYPE_LOCAL     5
 
-char tagname[100],desc[100],msgbase[10],path[100],export[1000],aka[50];
+char tagname[100],desc[100],msgbase[10],path[100],export[64000],aka[50];
 char group,areatype;
 bool unconfirmed;
 
@@ -311,7 +311,7 @@ int main(int argc, char **argv)
          while(jbstrcpy(buf,cfgbuf,100,&jbcpos))
          {
             if(buf[0]=='!' || buf[0]=='%' || buf[0]=='@')
-               strcpy(buf,&buf[1]);
+               memmove(buf,&buf[1],strlen(buf));
 
             if(Parse4DTemplate(buf,&tmp4d,&tpl4d))
             {
diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 119e5ae..14ea481 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -90,6 +90,8 @@ bool Parse4DPat(char *buf, struct Node4DPat *node)
    if(strcmp(buf,"*")==0)
       return(TRUE);
 
+   temp[0]=0;
+
 	for(c=0;c<strlen(buf);c++)
 	{
 		if(buf[c]==':')
@@ -98,6 +100,7 @@ bool Parse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Zone,temp);
          GotZone=TRUE;
 			tempc=0;
+			temp[0]=0;
 	   }
 		else if(buf[c]=='/')
 		{
@@ -105,6 +108,7 @@ bool Parse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Net,temp);
          GotNet=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if(buf[c]=='.')
 		{
@@ -113,6 +117,7 @@ bool Parse4DPat(char *buf, struct Node4DPat *node)
          node->Point[0]=0;
          GotNode=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if((buf[c]>='0' && buf[c]<='9') || buf[c]=='*' || buf[c]=='?')
 		{
@@ -153,6 +158,7 @@ int NodeCompare(char *pat,uint16_t num)
    for(c=0;c<strlen(pat);c++)
    {
       if(pat[c]=='*') return(0);
+      if(buf[c]==0) return(1);
       if(pat[c]!=buf[c] && pat[c]!='?') return(1);
    }
 
@@ -179,8 +185,8 @@ int Compare4DPat(struct Node4DPat *nodepat,struct Node4D *node)
 char *unit(uint32_t i)
 {
    static char buf[20];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%uM",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%uK",i/1024);
+   if (i>10000000) sprintf(buf,"%uM",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%uK",i/1024);
    else sprintf(buf,"%u",i);
    return buf;
 }
@@ -210,7 +216,7 @@ void strip(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=(int)strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--) 
 		str[c]=0;
 }
 
@@ -269,7 +275,7 @@ char *PrintFlowSize(struct fileentry *fe)
       if(line[0])
       {
          if(line[0] == '#' || line[0] == '^' || line[0] == '-')
-            strcpy(line,&line[1]);
+            memmove(line,&line[1],strlen(line));
       
          if(stricmp(GetFilePart(line),line) == 0)
          {
@@ -326,11 +332,11 @@ void DisplayFlowContents(struct fileentry *fe)
          {
             todo="";
 
-            if(line[0] == '#' || line[0] == '^') todo="(To be truncated)";
-            if(line[0] == '-')                   todo="(To be deleted)";
+            if(line[0] == '#')                   todo="(To be truncated)";
+            if(line[0] == '^' || line[0] == '-') todo="(To be deleted)";
 
             if(line[0] == '#' || line[0] == '^' || line[0] == '-')
-               strcpy(line,&line[1]);
+               memmove(line,&line[1],strlen(line));
       
             if(stricmp(GetFilePart(line),line) == 0)
             {
@@ -390,6 +396,8 @@ char *PrintReqNums(struct fileentry *fe)
       }
    }
 
+   osClose(os);
+
    sprintf(buf,"-/%u",reqs);
    
    return(buf);
@@ -437,6 +445,9 @@ void DisplayPkt(struct fileentry *fe)
 
    sprintf(buf,"%s/1",unit(fe->size));
 
+   TotalFiles++;
+   TotalBytes+=fe->size;
+
    printf("%-8.8s %-17.17s %-16.16s %7.7s   %s\n",
       type_names[fe->type],PrintNode(&fe->Node),PrintDate(fe->date),buf,fe->file);
 
-- 
2.43.0


From 4929fcadf3d470685bdec32b901958ad6a2afacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:00 +0000
Subject: [PATCH 66/79] fix: report byte counts in bytes or KB, not always in
 MB

---
 src/tools/crashstats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index a41f807..d1cc784 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -274,9 +274,9 @@ bool SortNodes(struct jbList *list)
 char *unit(uint32_t i)
 {
    static char buf[40];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%d MB",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%d KB",i/1024);
-   else sprintf(buf,"%d bytes",i);
+   if (i>10000000) sprintf(buf,"%u MB",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%u KB",i/1024);
+   else sprintf(buf,"%u bytes",i);
    return buf;
 }
 
-- 
2.43.0


From d4f4b1f4585c79460fe42ea8207ec0ec34eeeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:37 +0000
Subject: [PATCH 67/79] fix: reject short and damaged statistics files instead
 of using uninitialised data

---
 src/crashmail/stats.c  | 15 +++++++++++----
 src/tools/crashstats.c | 39 +++++++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/crashmail/stats.c b/src/crashmail/stats.c
index 6f2e922..e6210db 100644
--- a/src/crashmail/stats.c
+++ b/src/crashmail/stats.c
@@ -137,8 +137,8 @@ bool ReadStats(char *file)
    if(!(fh=osOpen(file,MODE_OLDFILE)))
       return(TRUE); /* No reason for exiting */
 
+   memset(buf,0,5);
    osRead(fh,buf,4);
-   buf[4]=0;
 
    if(strcmp(buf,STATS_IDENTIFIER)!=0)
    {
@@ -147,13 +147,18 @@ bool ReadStats(char *file)
       return(FALSE);
    }
 
-   osRead(fh,&DayStatsWritten,sizeof(uint32_t));
+   if(osRead(fh,&DayStatsWritten,sizeof(uint32_t))!=sizeof(uint32_t))
+      DayStatsWritten=0;
+
+   if(osRead(fh,&num,sizeof(uint32_t))!=sizeof(uint32_t))
+      num=0;
 
-   osRead(fh,&num,sizeof(uint32_t));
    c=0;
 
    while(c<num && osRead(fh,&dastat,sizeof(struct DiskAreaStats))==sizeof(struct DiskAreaStats))
    {
+      dastat.Tagname[sizeof(dastat.Tagname)-1]=0;
+
       for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
          if(stricmp(area->Tagname,dastat.Tagname)==0) break;
 
@@ -169,7 +174,9 @@ bool ReadStats(char *file)
       c++;
    }
 
-   osRead(fh,&num,sizeof(uint32_t));
+   if(osRead(fh,&num,sizeof(uint32_t))!=sizeof(uint32_t))
+      num=0;
+
    c=0;
 
    while(c<num && osRead(fh,&dnstat,sizeof(struct DiskNodeStats))==sizeof(struct DiskNodeStats))
diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index d1cc784..09e3691 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -324,6 +324,19 @@ uint32_t CalculateAverage(uint16_t *last8array,uint32_t total,uint32_t daystatsw
 
 bool ctrlc;
 
+/* localtime() cannot represent every time found in a damaged file */
+
+static struct tm *LocalTime(time_t *t)
+{
+   time_t zero=0;
+   struct tm *tp;
+
+   if(!(tp=localtime(t)))
+      tp=localtime(&zero);
+
+   return(tp);
+}
+
 void breakfunc(int x)
 {
    ctrlc=TRUE;
@@ -402,8 +415,8 @@ int main(int argc, char **argv)
       exit(OS_EXIT_ERROR);
    }
 
+   memset(buf,0,5);
    osRead(fh,buf,4);
-   buf[4]=0;
 
    if(strcmp(buf,STATS_IDENTIFIER)!=0)
    {
@@ -413,7 +426,8 @@ int main(int argc, char **argv)
       exit(OS_EXIT_ERROR);
    }
 
-   osRead(fh,&DayStatsWritten,sizeof(uint32_t));
+   if(osRead(fh,&DayStatsWritten,sizeof(uint32_t))!=sizeof(uint32_t))
+      DayStatsWritten=0;
 
    total=0;
    totaldupes=0;
@@ -426,7 +440,9 @@ int main(int argc, char **argv)
    jbNewList(&StatsList);
    jbNewList(&NodesList);
 
-   osRead(fh,&num,sizeof(uint32_t));
+   if(osRead(fh,&num,sizeof(uint32_t))!=sizeof(uint32_t))
+      num=0;
+
    c=0;
 
    if(!args[ARG_NOAREAS].data)
@@ -446,6 +462,7 @@ int main(int argc, char **argv)
 
             jbAddNode(&StatsList,(struct jbNode *)sn);
 
+            dastat.Tagname[sizeof(dastat.Tagname)-1]=0;
             strcpy(sn->Tagname,dastat.Tagname);
             sn->Dupes=dastat.Dupes;
             sn->Total=dastat.TotalTexts;
@@ -469,7 +486,9 @@ int main(int argc, char **argv)
          c++;
    }
 
-   osRead(fh,&num,sizeof(uint32_t));
+   if(osRead(fh,&num,sizeof(uint32_t))!=sizeof(uint32_t))
+      num=0;
+
    c=0;
 
    if(!args[ARG_NONODES].data)
@@ -522,10 +541,10 @@ int main(int argc, char **argv)
 
    t=(time_t)DayStatsWritten * 24*60*60;
 
-   tp=localtime(&firsttime);
+   tp=LocalTime(&firsttime);
    sprintf(date,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
    
-   tp=localtime(&t);
+   tp=LocalTime(&t);
    sprintf(date2,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
 
    printf("\nStatistics from %s to %s\n",date,date2);
@@ -543,7 +562,7 @@ int main(int argc, char **argv)
          for(c=1;c<8;c++)
          {
             t=(DayStatsWritten-c)*24*60*60;
-            tp=localtime(&t);
+            tp=LocalTime(&t);
             printf("   %02d",tp->tm_mday);
          }
 
@@ -613,7 +632,7 @@ int main(int argc, char **argv)
                }
                else
                {
-                  tp=localtime(&sn->LastTime);
+                  tp=LocalTime(&sn->LastTime);
                   sprintf(date2,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
                }
 
@@ -623,7 +642,7 @@ int main(int argc, char **argv)
                }
                else
                {
-                  tp=localtime(&sn->FirstTime);
+                  tp=LocalTime(&sn->FirstTime);
                   sprintf(date,"%02d-%s-%02d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
                }
 
@@ -667,7 +686,7 @@ int main(int argc, char **argv)
          }
          else
          {
-            tp=localtime(&nsn->FirstTime);
+            tp=LocalTime(&nsn->FirstTime);
             sprintf(date,"%0d-%s-%0d",tp->tm_mday,monthnames[tp->tm_mon],tp->tm_year%100);
          }
 
-- 
2.43.0


From e2c4d02e831c44d7f3fb5083fe2df5abb06d92bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:59 +0000
Subject: [PATCH 68/79] fix: room for the end of the last bundle name, which
 cleared the count of received netmails

---
 src/crashmail/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..b20ea8b 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -175,7 +175,7 @@ struct ConfigNode
 
    struct jbList RemoteAFList;
 
-   char LastArcName[12];
+   char LastArcName[13];
 	
    /* Stats */
 
-- 
2.43.0


From b83b24a17f1c1f81f49e2ecd357716d43f8188b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:24 +0000
Subject: [PATCH 69/79] fix: create the configuration lock and busy files
 exclusively, keep the lock until everything is closed

---
 src/crashmail/crashmail.c | 41 +++++++++++++++++++++++++++++----------
 src/crashmail/outbound.c  |  6 +++++-
 src/oslib/osfile.h        |  1 +
 src/oslib_linux/osfile.c  |  4 ++++
 src/oslib_win32/osfile.c  |  6 ++++++
 5 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index a080658..c557c81 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -490,12 +490,36 @@ bool LockConfig(char *file)
 {
 	char buf[200];
 	osFile fp;
+	int failed;
+
+	if(strlen(file) > 99)
+	{
+		printf("Name of configuration file is too long: %s\n",file);
+		return(FALSE);
+	}
 	
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
-	while(osExists(buf))
+	failed=0;
+
+	/* Only one run can succeed in creating the file */
+
+	while(!(fp=osOpen(buf,MODE_EXCLFILE)))
 	{
+		if(!osExists(buf))
+		{
+			/* It was removed just now or it cannot be created */
+
+			if(++failed < 10)
+				continue;
+
+			printf("Failed to create lock file %s\n",buf);
+			return(FALSE);
+		}
+
+		failed=0;
+
 		printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
 
 		osSleep(10);
@@ -504,12 +528,6 @@ bool LockConfig(char *file)
 			return(FALSE);
 	}
 	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
-	{
-		printf("Failed to create lock file %s\n",buf);
-		return(FALSE);
-	}
-	
 	osClose(fp);
 
 	return(TRUE);
@@ -519,6 +537,9 @@ void UnlockConfig(char *file)
 {
 	char buf[200];
 	
+	if(strlen(file) > 99)
+		return;
+
 	strcpy(buf,file);
 	strcat(buf,".busy");
 	
@@ -530,12 +551,12 @@ void CleanUp(int err)
    if(done_welcomemsg)
       LogWrite(2,SYSTEMINFO,"CrashMail end");
 
-	if(done_lockconfig)
-		UnlockConfig(config.filename);
-
    if(done_init)
       Free();
 
+	if(done_lockconfig)
+		UnlockConfig(config.filename);
+
    if(done_initconfig)
       FreeConfig(&config);
 
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 82d7562..a6ce89e 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -15,9 +15,13 @@ bool LockBasename(char *basename)
 	if(osExists(buf))
 		return(FALSE);
 	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
+	if(!(fp=osOpen(buf,MODE_EXCLFILE)))
 	{
 		uint32_t err=osError();
+
+		if(osExists(buf))
+			return(FALSE); /* Created by another program just now */
+
 		LogWrite(1,SYSTEMERR,"Failed to create busy file %s\n",buf);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
 		return(FALSE);
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index b96efbd..eb5c361 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -9,6 +9,7 @@ typedef void *osFile;
 
 #define MODE_OLDFILE    1005  /* Corresponds to "rb" with fopen */
 #define MODE_NEWFILE    1006  /* Corresponds to "wb" with fopen */
+#define MODE_EXCLFILE   1007  /* Like MODE_NEWFILE, but fails if the file exists */
 #define MODE_READWRITE  1004  /* Corresponds to "w+b" with fopen */
 
 #define OFFSET_BEGINNING -1
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index ad3d5c7..ab3d193 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -16,6 +16,10 @@ osFile osOpen(char *name,uint32_t mode)
 	{
 		fh=fopen(name,"wb");
 	}
+   else if(mode == MODE_EXCLFILE)
+	{
+		fh=fopen(name,"wbx");
+	}
    else if(mode == MODE_OLDFILE) 
 	{
 		fh=fopen(name,"rb");
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 2950a6a..8a2be76 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -114,6 +114,12 @@ osFile osOpen(char *name,ulong mode)
       sharemode=0;
       creationdisposition=CREATE_ALWAYS;
 	}
+   else if(mode == MODE_EXCLFILE)
+	{
+      desiredaccess=GENERIC_WRITE;
+      sharemode=0;
+      creationdisposition=CREATE_NEW;
+	}
    else if(mode == MODE_OLDFILE) 
 	{
       desiredaccess=GENERIC_READ;
-- 
2.43.0


From d01dba6d3a22741fb090b202957119eb70fa0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:14 +0000
Subject: [PATCH 70/79] fix: crashwrite: packets appear complete and under a
 name of their own, the last line of a text is ended, errors are reported

---
 src/tools/crashwrite.c | 93 +++++++++++++++++++++++++++++++++---------
 1 file changed, 73 insertions(+), 20 deletions(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index dd148e0..e389872 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -106,11 +106,11 @@ int main(int argc, char **argv)
    osFile ifh,ofh;
 	time_t t;
 	struct tm *tp;
-	uint32_t pktnum,c,serial;
+	uint32_t pktnum,c,ticks,serial;
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
-	char pktname[30],fullname[200],readbuf[100];
-	int i;
+	char pktname[30],tmpname[30],fullname[200],fulltmp[200];
+	int ch,prevch;
 	
 	from4d.Zone=0;
 	from4d.Net=0;
@@ -260,25 +260,55 @@ int main(int argc, char **argv)
 
 	/* Create pkt file */
 
+	if(strlen((char *)args[ARG_DIR].data) > 180)
+	{
+		printf("Name of directory is too long: %s\n",(char *)args[ARG_DIR].data);
+		osEnd();
+		exit(OS_EXIT_ERROR);
+	}
+
+	/* Other programs may be creating or tossing packets in the same directory,
+	   so the packet gets its name when it is complete. The number is also used
+	   for MSGID and should be different in the next run. */
+
+	ticks=osTicks();
 	serial=0;
+	ofh=NULL;
 
    do
    {
-      t=time(NULL);
-      pktnum = (t<<8) + serial;
+      pktnum = ticks + serial;
 		serial++;
       sprintf(pktname,"%08x.pkt",pktnum);
+      sprintf(tmpname,"%08x.tmp",pktnum);
       MakeFullPath(args[ARG_DIR].data,pktname,fullname,200);
-   } while(osExists(fullname));
+      MakeFullPath(args[ARG_DIR].data,tmpname,fulltmp,200);
 
-   if(!(ofh=osOpen(fullname,MODE_NEWFILE)))
-   {
-		uint32_t err=osError();
-      printf("Unable to create packet %s\n",fullname);
-		printf("Error: %s\n",osErrorMsg(err));		
-		osEnd();
-      exit(OS_EXIT_ERROR);
-   }
+		if(osExists(fullname) || osExists(fulltmp))
+			continue;
+
+	   if(!(ofh=osOpen(fulltmp,MODE_EXCLFILE)))
+   	{
+			uint32_t err=osError();
+
+			if(osExists(fulltmp))
+				continue;
+
+			printf("Unable to create packet %s\n",fullname);
+			printf("Error: %s\n",osErrorMsg(err));		
+			osEnd();
+      	exit(OS_EXIT_ERROR);
+		}
+
+		if(osExists(fullname))
+		{
+			/* Completed by another program just now */
+
+			osClose(ofh);
+			osDelete(fulltmp);
+			ofh=NULL;
+		}
+   } while(!ofh);
 
    printf("Writing...\n");
    printf(" From: %-36s (%u:%u/%u.%u)\n",fromname,from4d.Zone,from4d.Net,from4d.Node,from4d.Point);
@@ -326,18 +356,33 @@ int main(int argc, char **argv)
       	printf("Unable to open \"%s\" for reading\n",(char *)args[ARG_TEXT].data);
 			printf("Error: %s\n",osErrorMsg(err));		
 			osClose(ofh);
-			osDelete(fullname);
+			osDelete(fulltmp);
 			exit(OS_EXIT_ERROR);
       }
 
-      while(osFGets(ifh,readbuf,100))
+		prevch='\n';
+
+      while((ch=osGetChar(ifh)) != -1)
       {
-			for(i=0;readbuf[i];i++)
-				if(readbuf[i] == '\n') readbuf[i]=0x0d;
+			if(ch == 0)
+				continue;
+
+			/* LF and CRLF -> CR */
+
+			if(ch != '\n')
+				osPutChar(ofh,ch);
 
-         osFPrintf(ofh,"%s",readbuf);
+			else if(prevch != 0x0d)
+				osPutChar(ofh,0x0d);
+
+			prevch=ch;
       }
 
+		/* What follows needs a line of its own */
+
+		if(prevch != '\n' && prevch != 0x0d)
+			osPutChar(ofh,0x0d);
+
 		osClose(ifh);
 	}
 	
@@ -351,7 +396,15 @@ int main(int argc, char **argv)
    osWrite(ofh,"",1);
    osWrite(ofh,"",1);
 
-   osClose(ofh);
+   if(!osClose(ofh) || !osRename(fulltmp,fullname))
+	{
+		uint32_t err=osError();
+		printf("Unable to write packet %s\n",fullname);
+		printf("Error: %s\n",osErrorMsg(err));		
+		osDelete(fulltmp);
+		osEnd();
+		exit(OS_EXIT_ERROR);
+	}
 
 	osEnd();
 
-- 
2.43.0


From 4cbd7a08343b05dd5fb8cfe6b7d396e03a32edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 71/79] fix: GROUPNAME with an empty group wrote before the
 table of group names

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 6a28c13..c8e2408 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -176,7 +176,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(!CorrectFlags(buf2))
+         if(buf2[0]==0 || !CorrectFlags(buf2))
          {
             sprintf(cfgerr,"Invalid group \"%s\"",buf2);
             osClose(cfgfh);
-- 
2.43.0


From 3b7f34131cf77276264d9c91252a21068e29bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:07 +0000
Subject: [PATCH 72/79] fix: large packet and bundle size limits overflowed a
 signed integer

---
 src/crashmail/config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index c8e2408..3997692 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -1742,7 +1742,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         cfg->cfg_MaxPktSize=atoi(buf2)*1024;
+         cfg->cfg_MaxPktSize=(uint32_t)atoi(buf2)*1024;
       }
       else if(stricmp(cfgword,"MAXBUNDLESIZE")==0)
       {
@@ -1753,7 +1753,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         cfg->cfg_MaxBundleSize=atoi(buf2)*1024;
+         cfg->cfg_MaxBundleSize=(uint32_t)atoi(buf2)*1024;
       }
       else if(stricmp(cfgword,"DEFAULTZONE")==0)
       {
-- 
2.43.0


From 27489195a915cc2c1eef9373688c11cfa6123624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 73/79] fix: a file is sent again although a flow line marked
 as sent names it

---
 src/crashmail/outbound.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index a6ce89e..109ff63 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -537,8 +537,10 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 
       striptrail(buf);
 
+      if(buf[0]=='~')
+         continue; /* Already sent */
+
       if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
-      if(buf[0]=='~') memmove(buf, buf + 1, strlen (buf));
       if(buf[0]=='^') memmove(buf, buf + 1, strlen (buf));
       if(buf[0]=='-') memmove(buf, buf + 1, strlen (buf));
 
-- 
2.43.0


From 8673e9c607f5e8bba6f846464ceb3bd6110a0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:25 +0000
Subject: [PATCH 74/79] fix: attached files were lost when a run was
 interrupted or the flow file could not be written

---
 src/crashmail/handle.c   | 47 ++++++++++++++++++++++++++++++----------
 src/crashmail/outbound.c | 22 +++++++++++++------
 src/crashmail/outbound.h |  1 +
 3 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 9bec043..fbc0be1 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1192,7 +1192,7 @@ bool HandleNetmail(struct MemMessage *mm)
    struct PatternNode *patternnode;
    struct AreaFixName *areafixname;
    struct TextChunk *chunk;
-   bool istext;
+   bool istext,moved;
    char buf[400],buf2[200],buf3[200],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
@@ -1656,17 +1656,21 @@ bool HandleNetmail(struct MemMessage *mm)
             {
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
 
-					if(osExists(buf) && !osExists(buf2))
+					if(osExists(buf) && !osExists(buf2) && copyfile(buf,buf2))
                {
-                  copyfile(buf,buf2);
-
-						if(nomem || ioerror)
-							return(FALSE);
-
-                  AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
+                  if(!AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE))
+                  {
+                     ioerror=TRUE;
+                     ioerrornum=osError();
+                     osDelete(buf2);
+                     return(FALSE);
+                  }
                }
                else
                {
+						if(nomem || ioerror)
+							return(FALSE);
+
                   AddFlow(buf,&Dest4D,mm->Type,FLOW_NONE);
                }
             }
@@ -1675,13 +1679,32 @@ bool HandleNetmail(struct MemMessage *mm)
 					MakeFullPath(config.cfg_Inbound,GetFilePart(buf),buf2,200);
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf3,200);
 
-               if(!osExists(buf3) && movefile(buf2,buf3))
+               moved=FALSE;
+
+               if(osExists(buf2) && !osExists(buf3))
                {
-                  AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE);
+                  /* The orphan file is there until the file is in the flow file
+                     so that the next run can add it if this one is interrupted */
+
+                  if(MakeOrphan(buf3,&Dest4D,mm->Type,FLOW_DELETE))
+                     moved=movefile(buf2,buf3);
+
+                  if(!moved)
+                  {
+                     sprintf(buf,"%s.orphan",buf3);
+                     osDelete(buf);
+                  }
                }
-               else
+
+               if(!AddFlow(moved ? buf3 : buf2,&Dest4D,mm->Type,FLOW_DELETE))
                {
-                  AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
+                  ioerror=TRUE;
+                  ioerrornum=osError();
+
+                  if(moved)
+                     movefile(buf3,buf2);
+
+                  return(FALSE);
                }
             }
          }
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 109ff63..323ac86 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -569,26 +569,34 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    return(osClose(fh)); /* Not added if it couldn't be written */
 }
 
-/* Handles locking and MakeOrphan() */
+/* Handles locking and MakeOrphan(). Fails if the file could neither be added
+   now nor be left for the next run */
 bool AddFlow(char *filename,struct Node4D *n4d,char type,long mode)
 {
-	char basename[200];
+	char basename[200],orphan[220];
+	bool res;
 
    MakeBaseName(n4d,basename);
 
 	if(!LockBasename(basename))
 	{
 		printf("Cannot add to %s, node is busy...\n",GetFilePart(basename));
-		MakeOrphan(filename,n4d,type,mode);
-		return(FALSE);
+		return(MakeOrphan(filename,n4d,type,mode));
 	}
 
-	if(!doAddFlow(filename,basename,type,mode))
-		MakeOrphan(filename,n4d,type,mode);
+	if((res=doAddFlow(filename,basename,type,mode)))
+	{
+		sprintf(orphan,"%s.orphan",filename);
+		osDelete(orphan); /* No longer needed */
+	}
+	else
+	{
+		res=MakeOrphan(filename,n4d,type,mode);
+	}
 
 	UnlockBasename(basename);
 
-	return(TRUE);
+	return(res);
 }
 
 bool MakePktTmp(char *name)
diff --git a/src/crashmail/outbound.h b/src/crashmail/outbound.h
index 5877b25..9b3562f 100644
--- a/src/crashmail/outbound.h
+++ b/src/crashmail/outbound.h
@@ -4,4 +4,5 @@
 
 bool ArchiveOutbound(void);
 void MakeBaseName(struct Node4D *n4d,char *basename);
+bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode);
 bool AddFlow(char *filename,struct Node4D *n4d,char type,long mode);
-- 
2.43.0


From 636cb1d520e8bef28d36f4eaa868541b866338d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:04 +0000
Subject: [PATCH 75/79] fix: empty parts of address patterns were read from
 uninitialised memory

---
 src/crashmail/node4dpat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/node4dpat.c b/src/crashmail/node4dpat.c
index d27a0fe..3028c11 100644
--- a/src/crashmail/node4dpat.c
+++ b/src/crashmail/node4dpat.c
@@ -3,7 +3,7 @@
 bool rawParse4DPat(char *buf, struct Node4DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotZone=FALSE,GotNet=FALSE,GotNode=FALSE;
 
    strcpy(node->Zone,"*");
@@ -315,7 +315,7 @@ bool Check4DPatNodelist(struct Node4DPat *pat)
 bool Parse2DPat(char *buf, struct Node2DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotNet=FALSE;
 
    strcpy(node->Net,"*");
-- 
2.43.0


From d41b393e22e70b5325a1133ae2bc74a17bf77a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:34 +0000
Subject: [PATCH 76/79] fix: a long packet creation directory does not cut off
 the names of new packets

---
 src/crashmail/pkt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index b332728..4cb990f 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -562,7 +562,7 @@ uint32_t lastpktnum;
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
-   char buf[100],buf2[100];
+   char buf[200],buf2[100];
    struct Pkt *pkt;
    uint32_t num;
    time_t t;
@@ -582,7 +582,7 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
 
       sprintf(buf2,"%08x.newpkt",num);
       
-      MakeFullPath(config.cfg_PacketCreate,buf2,buf,100);
+      MakeFullPath(config.cfg_PacketCreate,buf2,buf,200);
    } while(osExists(buf));
 
    if(!(pkt=(struct Pkt *)osAllocCleared(sizeof(struct Pkt))))
-- 
2.43.0


From c26fa03cabe5e4acc884fe2ea9e156713910426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:34 +0000
Subject: [PATCH 77/79] fix: processed files with a path over 99 characters are
 deleted

---
 src/crashmail/safedel.c | 10 +++++-----
 src/crashmail/safedel.h |  6 ++++++
 src/crashmail/toss.c    |  5 +++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/safedel.c b/src/crashmail/safedel.c
index 24e720c..c4c1132 100644
--- a/src/crashmail/safedel.c
+++ b/src/crashmail/safedel.c
@@ -2,12 +2,12 @@
 
 bool SafeDelete(char *file)
 {
-   struct osFileEntry *fe;
+   struct SafeDelFile *fe;
 
-   if(!(fe=osAllocCleared(sizeof(struct osFileEntry))))
+   if(!(fe=osAllocCleared(sizeof(struct SafeDelFile))))
       return(FALSE);
 
-   mystrncpy(fe->Name,file,100);
+   mystrncpy(fe->Name,file,200);
    jbAddNode(&DeleteList,(struct jbNode *)fe);
 
 	return(TRUE);
@@ -15,9 +15,9 @@ bool SafeDelete(char *file)
 
 void ProcessSafeDelete(void)
 {
-   struct osFileEntry *fe;
+   struct SafeDelFile *fe;
 
-   for(fe=(struct osFileEntry *)DeleteList.First;fe;fe=fe->Next)
+   for(fe=(struct SafeDelFile *)DeleteList.First;fe;fe=fe->Next)
       osDelete(fe->Name);
 
    jbFreeList(&DeleteList);
diff --git a/src/crashmail/safedel.h b/src/crashmail/safedel.h
index dc1d62b..4760305 100644
--- a/src/crashmail/safedel.h
+++ b/src/crashmail/safedel.h
@@ -1,2 +1,8 @@
+struct SafeDelFile
+{
+   struct SafeDelFile *Next;
+   char Name[200];
+};
+
 bool SafeDelete(char *file);
 void ProcessSafeDelete(void);
diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index e0139ce..caaf24d 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -84,7 +84,8 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    struct Packer *tmppacker;
    char buf[200],buf2[400];
    struct jbList FEList;
-   struct osFileEntry *pktfe,*safedel;
+   struct osFileEntry *pktfe;
+   struct SafeDelFile *safedel;
    int arcres;
 
    if(fe->Size == 0)
@@ -144,7 +145,7 @@ bool TossBundle(char *file,struct osFileEntry *fe)
       /* If you have your tempdir in Inbound, this might be an unpacked
          mailpacket that has been processed already */
 
-      for(safedel=(struct osFileEntry *)DeleteList.First;safedel;safedel=safedel->Next)
+      for(safedel=(struct SafeDelFile *)DeleteList.First;safedel;safedel=safedel->Next)
          if(strcmp(safedel->Name,buf)==0) break;
 
       if(!safedel)
-- 
2.43.0


From b248b6c8ee6ed42552b6aebe215f6abbe803ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:34 +0000
Subject: [PATCH 78/79] fix: the .bad name of a file in a long inbound path is
 not cut off

---
 src/crashmail/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index aa2b20b..57ad500 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -299,7 +299,7 @@ void stripleadtrail(char *str)
 
 void BadFile(char *filename,char *comment)
 {
-   char destname[100],numbuf[10];
+   char destname[220],numbuf[15];
    uint32_t num;
 
    LogWrite(3,TOSSINGERR,"Renaming %s to .bad",filename);
@@ -308,7 +308,7 @@ void BadFile(char *filename,char *comment)
 
    do
    {
-      MakeFullPath(config.cfg_Inbound,GetFilePart(filename),destname,90);
+      MakeFullPath(config.cfg_Inbound,GetFilePart(filename),destname,200);
       strcat(destname,".bad");
 
       if(num != 0)
-- 
2.43.0


From 13265495a31c317db7a87c6489f969264973ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:43 +0000
Subject: [PATCH 79/79] fix: adding a JAM message with a receiver name over 100
 characters does not overflow a buffer

---
 src/jamlib/message.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index f145d85..fec177b 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -405,10 +405,10 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
    /* write Subfields */
    if ( SubPack_PS ) {
 	s_JamSubfield*	Subfield_PS;
-	char 		User_AC[101];
+	uint32_t	NameLen_I;
 
-	/* clear username */
-	User_AC[0] = 0;
+	/* no username yet */
+	Index_S.UserCRC = JAM_NO_CRC;
 
 	for ( Subfield_PS = JAM_GetSubfield( SubPack_PS ); Subfield_PS;
 	   Subfield_PS = JAM_GetSubfield( NULL ) ) {
@@ -428,18 +428,14 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 	      }
 	   }
 
-	   /* store username for index file */
+	   /* store CRC of username for index file, the name may have any length */
 	   if ( Subfield_PS->LoID == JAMSFLD_RECVRNAME ) {
-	      memcpy( User_AC, Subfield_PS->Buffer, Subfield_PS->DatLen );
-	      User_AC[ Subfield_PS->DatLen ] = 0;
+	      NameLen_I = 0;
+	      while ( NameLen_I < Subfield_PS->DatLen && Subfield_PS->Buffer[NameLen_I] )
+	         NameLen_I++;
+	      Index_S.UserCRC = NameLen_I ? JAM_Crc32( Subfield_PS->Buffer, NameLen_I ) : JAM_NO_CRC;
 	   }
 	}
-
-	/* update index record */
-	if ( User_AC[0] )
-	   Index_S.UserCRC = JAM_Crc32( User_AC, strlen( User_AC ) );
-	else
-	   Index_S.UserCRC = JAM_NO_CRC;
    }
    else
  	/* update index record */
-- 
2.43.0

