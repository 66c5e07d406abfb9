From b3e9bd0f2f119bdeb31f13c17e31692374915abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 01/61] fix: XmlEncode and JsonEncode passed a stray byte 0x80
 through, producing invalid UTF-8

---
 daemon/util/Util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index f138968..1cb2d82 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -792,7 +792,7 @@ CString WebUtil::XmlEncode(const char* raw)
 				output += 6;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
@@ -1076,7 +1076,7 @@ CString WebUtil::JsonEncode(const char* raw)
 				output += 2;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
-- 
2.43.0


From b3b93c43b9a1d50ac898291ac177ae3d66978b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 02/61] fix: XmlDecode ran past the end of text and misread
 character references

---
 daemon/util/Util.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 1cb2d82..514a67a 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -890,15 +890,20 @@ void WebUtil::XmlDecode(char* raw)
 					}
 					else if (*p == '#')
 					{
-						int code = atoi((p++)+1);
-						while (strchr("0123456789;", *p)) p++;
+						p++;
+						char* end;
+						int code = (*p == 'x' || *p == 'X') ? (int)strtol(p + 1, &end, 16) : (int)strtol(p, &end, 10);
+						p = *end == ';' ? end + 1 : end;
 						*output++ = (char)code;
 					}
 					else
 					{
 						// unknown entity, keep as is
 						*output++ = *(p-1);
-						*output++ = *p++;
+						if (*p)
+						{
+							*output++ = *p++;
+						}
 					}
 					break;
 				}
-- 
2.43.0


From b3224c7ed2c297bc004abf161e1e109ee97e0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 03/61] fix: XmlRemoveEntities ran past the end of text with an
 unterminated entity

---
 daemon/util/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 514a67a..185d6e9 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -986,7 +986,7 @@ void WebUtil::XmlRemoveEntities(char* raw)
 			case '&':
 			{
 				char* p2 = p+1;
-				while (isalpha(*p2) || strchr("0123456789#", *p2)) p2++;
+				while (*p2 && (isalpha(*p2) || strchr("0123456789#", *p2))) p2++;
 				if (*p2 == ';')
 				{
 					*output++ = ' ';
-- 
2.43.0


From a68baf74e353ec2a8b44f06917f3e4e440ce7764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 04/61] fix: JsonDecode ran past the end of text and read more
 than four digits of a unicode escape

---
 daemon/util/Util.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 185d6e9..0fcd3b5 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1168,9 +1168,16 @@ void WebUtil::JsonDecode(char* raw)
 							*output++ = '\t';
 							break;
 						case 'u':
-							*output++ = (char)strtol(p + 1, nullptr, 16);
-							p += 4;
+							{
+								char hex[5] = "";
+								strncpy(hex, p + 1, 4);
+								*output++ = (char)strtol(hex, nullptr, 16);
+								p += strlen(hex);
+							}
 							break;
+						case '\0':
+							// incomplete escape-sequence at the end of text
+							goto BreakLoop;
 						default:
 							// unknown escape-sequence, should never occur
 							*output++ = *p;
-- 
2.43.0


From 4a066b47552c557382c25da7057ee21c6e07e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 05/61] fix: JsonNextValue missed the end of a string with
 consecutive escapes and could read past the end of text

---
 daemon/util/Util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 0fcd3b5..58fe85d 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1229,6 +1229,7 @@ const char* WebUtil::JsonNextValue(const char* jsonText, int* valueLength)
 		{
 			if (!*++pend || !*++pend) return nullptr;
 			ch = *pend;
+			continue;
 		}
 		if (str && ch == '"')
 		{
-- 
2.43.0


From 0131deb9453c1d7f42b8544dc35572b3ab25d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:16 +0000
Subject: [PATCH 06/61] fix: JSON-RPC parameter readers stepped past the end of
 a truncated request

---
 daemon/remote/XmlRpc.cpp | 14 ++++++++++----
 daemon/remote/XmlRpc.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 0686f29..c158933 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -866,6 +866,12 @@ void XmlCommand::PrepareParams()
 	}
 }
 
+void XmlCommand::JsonSkipValue(char* valueEnd)
+{
+	// skip the delimiter following the value, unless the text ends here
+	m_requestPtr = *valueEnd ? valueEnd + 1 : valueEnd;
+}
+
 char* XmlCommand::XmlNextValue(char* xml, const char* tag, int* valueLength)
 {
 	int valueLen;
@@ -907,7 +913,7 @@ bool XmlCommand::NextParamAsInt(int* value)
 			return false;
 		}
 		*value = atoi(param);
-		m_requestPtr = param + len + 1;
+		JsonSkipValue(param + len);
 		return true;
 	}
 	else
@@ -971,13 +977,13 @@ bool XmlCommand::NextParamAsBool(bool* value)
 		if (len == 4 && !strncmp(param, "true", 4))
 		{
 			*value = true;
-			m_requestPtr = param + len + 1;
+			JsonSkipValue(param + len);
 			return true;
 		}
 		else if (len == 5 && !strncmp(param, "false", 5))
 		{
 			*value = false;
-			m_requestPtr = param + len + 1;
+			JsonSkipValue(param + len);
 			return true;
 		}
 		else
@@ -1032,9 +1038,9 @@ bool XmlCommand::NextParamAsStr(char** value)
 		{
 			return false;
 		}
+		JsonSkipValue(param + len);
 		param++; // skip first '"'
 		param[len - 2] = '\0'; // skip last '"'
-		m_requestPtr = param + len;
 		*value = param;
 		return true;
 	}
diff --git a/daemon/remote/XmlRpc.h b/daemon/remote/XmlRpc.h
index 79084c1..07e9fd1 100644
--- a/daemon/remote/XmlRpc.h
+++ b/daemon/remote/XmlRpc.h
@@ -115,6 +115,7 @@ protected:
 	bool NextParamAsInt(int* value);
 	bool NextParamAsBool(bool* value);
 	bool NextParamAsStr(char** valueBuf);
+	void JsonSkipValue(char* valueEnd);
 	char* XmlNextValue(char* xml, const char* tag, int* valueLength);
 	const char* BoolToStr(bool value);
 	CString EncodeStr(const char* str);
-- 
2.43.0


From 3063eb8e2b3ef12917edaa6e9eeadaefe872a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:41 +0000
Subject: [PATCH 07/61] fix: UrlDecode read and wrote past the end of text with
 an incomplete escape sequence

---
 daemon/util/Util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 58fe85d..ebe3f83 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1287,6 +1287,12 @@ void WebUtil::UrlDecode(char* raw)
 				goto BreakLoop;
 			case '%':
 				{
+					if (!p[1] || !p[2])
+					{
+						// incomplete escape-sequence at the end of text
+						*output++ = *p++;
+						break;
+					}
 					p++;
 					uchar c1 = *p++;
 					uchar c2 = *p++;
-- 
2.43.0


From 310e0cfba864ddf8a6f3f81d4d11c95b216a6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:41 +0000
Subject: [PATCH 08/61] fix: HttpUnquote handled the character following a
 backslash twice

---
 daemon/util/Util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index ebe3f83..4b2a49c 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1264,7 +1264,10 @@ void WebUtil::HttpUnquote(char* raw)
 				goto BreakLoop;
 			case '\\':
 				p++;
-				*output++ = *p;
+				if (*p)
+				{
+					*output++ = *p++;
+				}
 				break;
 			default:
 				*output++ = *p++;
-- 
2.43.0


From 9f462aab5a15dfb3647057c46e099f16b045f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 09/61] fix: ParseRfc822DateTime ignored the sign of zones with
 zero hours

---
 daemon/util/Util.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 4b2a49c..d6e1724 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1391,8 +1391,9 @@ time_t WebUtil::ParseRfc822DateTime(const char* dateTimeStr)
 {
 	char month[4];
 	int day, year, hours, minutes, seconds, zonehours, zoneminutes;
-	int r = sscanf(dateTimeStr, "%*s %d %3s %d %d:%d:%d %3d %2d", &day, &month[0], &year, &hours, &minutes, &seconds, &zonehours, &zoneminutes);
-	if (r != 8)
+	char zonesign;
+	int r = sscanf(dateTimeStr, "%*s %d %3s %d %d:%d:%d %c%2d%2d", &day, &month[0], &year, &hours, &minutes, &seconds, &zonesign, &zonehours, &zoneminutes);
+	if (r != 9)
 	{
 		return 0;
 	}
@@ -1422,7 +1423,8 @@ time_t WebUtil::ParseRfc822DateTime(const char* dateTimeStr)
 	rawtime.tm_sec = seconds;
 
 	time_t enctime = Util::Timegm(&rawtime);
-	enctime -= (zonehours * 60 + (zonehours > 0 ? zoneminutes : -zoneminutes)) * 60;
+	int zoneoffset = (zonehours * 60 + zoneminutes) * 60;
+	enctime -= zonesign == '-' ? -zoneoffset : zoneoffset;
 
 	return enctime;
 }
-- 
2.43.0


From 059f9df9069e92ce4809a434f146fdd5d182d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 10/61] fix: JSON-RPC members behind the params array were read
 as further parameters

---
 daemon/remote/XmlRpc.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index c158933..f1eed38 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -858,6 +858,30 @@ void XmlCommand::PrepareParams()
 			return;
 		}
 		m_requestPtr = params + 8; // strlen("\"params\"")
+
+		// members following the array of parameters are not parameters
+		int depth = 0;
+		bool str = false;
+		for (char* p = m_requestPtr; *p; p++)
+		{
+			if (str && *p == '\\' && p[1])
+			{
+				p++;
+			}
+			else if (*p == '"')
+			{
+				str = !str;
+			}
+			else if (!str && *p == '[')
+			{
+				depth++;
+			}
+			else if (!str && *p == ']' && --depth <= 0)
+			{
+				*p = '\0';
+				break;
+			}
+		}
 	}
 
 	if (m_protocol == XmlRpcProcessor::rpJsonPRpc)
-- 
2.43.0


From 2619428cbe664d591dcc5aee4996d16adf833ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:40 +0000
Subject: [PATCH 11/61] fix: URL took the rest of the address for an empty
 protocol or host and missed an empty port

---
 daemon/util/Util.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index d6e1724..f40b92d 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1449,7 +1449,7 @@ void URL::ParseUrl()
 	// http://host
 
 	char* protEnd = strstr(m_address, "://");
-	if (!protEnd)
+	if (!protEnd || protEnd == (char*)m_address)
 	{
 		// Bad URL
 		return;
@@ -1497,16 +1497,22 @@ void URL::ParseUrl()
 	{
 		m_resource = "/";
 
-		hostEnd = m_address + strlen(m_address);
+		hostEnd = m_address + strlen(m_address) - 1;
 	}
 
 	char* colon = strchr(hostStart, ':');
-	if (colon && colon < hostEnd)
+	if (colon && colon <= hostEnd)
 	{
 		hostEnd = colon - 1;
 		m_port = atoi(colon + 1);
 	}
 
+	if (hostEnd < hostStart)
+	{
+		// Bad URL
+		return;
+	}
+
 	m_host.Set(hostStart, (int)(hostEnd - hostStart + 1));
 
 	m_valid = true;
-- 
2.43.0


From 9d6b88825e2af424ba928ebe49ce348204b19211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 12/61] fix: merging downloads copied the file name of the
 source onto itself, reading freed memory

---
 daemon/queue/QueueCoordinator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 7e12f4c..ed0a89f 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1160,7 +1160,6 @@ bool QueueCoordinator::MergeQueueEntries(DownloadQueue* downloadQueue, NzbInfo*
 	}
 
 	// set new dest directory, new category and move downloaded files to new dest directory
-	srcNzbInfo->SetFilename(srcNzbInfo->GetFilename());
 	SetQueueEntryCategory(downloadQueue, srcNzbInfo, destNzbInfo->GetCategory());
 
 	// reattach file items to new NZBInfo-object
-- 
2.43.0


From 1a790d494b56dca8f74cb6a10dd10c7b46dc56a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 13/61] fix: splitting off paused files counted them from the
 paused files of the source

---
 daemon/queue/QueueCoordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index ed0a89f..978cef8 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1322,7 +1322,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			srcNzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() - 1);
 			srcNzbInfo->SetPausedSize(srcNzbInfo->GetPausedSize() - fileInfo->GetRemainingSize());
 
-			nzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() + 1);
+			nzbInfo->SetPausedFileCount(nzbInfo->GetPausedFileCount() + 1);
 			nzbInfo->SetPausedSize(nzbInfo->GetPausedSize() + fileInfo->GetRemainingSize());
 		}
 	}
-- 
2.43.0


From d50199cb1f360005b794eaeeb657b7c3fbea9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 14/61] fix: splitting left the size of missing segments with
 the source download

---
 daemon/queue/QueueCoordinator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 978cef8..8d6d99a 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1287,6 +1287,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		srcNzbInfo->SetRemainingSize(srcNzbInfo->GetRemainingSize() - fileInfo->GetRemainingSize());
 		srcNzbInfo->SetCurrentSuccessSize(srcNzbInfo->GetCurrentSuccessSize() - fileInfo->GetSuccessSize());
 		srcNzbInfo->SetCurrentFailedSize(srcNzbInfo->GetCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
+		srcNzbInfo->SetFailedSize(srcNzbInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetTotalArticles(srcNzbInfo->GetTotalArticles() - fileInfo->GetTotalArticles());
 		srcNzbInfo->SetFailedArticles(srcNzbInfo->GetFailedArticles() - fileInfo->GetMissedArticles());
 		srcNzbInfo->SetCurrentSuccessArticles(srcNzbInfo->GetCurrentSuccessArticles() - fileInfo->GetSuccessArticles());
@@ -1298,6 +1299,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		nzbInfo->SetRemainingSize(nzbInfo->GetRemainingSize() + fileInfo->GetRemainingSize());
 		nzbInfo->SetCurrentSuccessSize(nzbInfo->GetCurrentSuccessSize() + fileInfo->GetSuccessSize());
 		nzbInfo->SetCurrentFailedSize(nzbInfo->GetCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
+		nzbInfo->SetFailedSize(nzbInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetTotalArticles(nzbInfo->GetTotalArticles() + fileInfo->GetTotalArticles());
 		nzbInfo->SetFailedArticles(nzbInfo->GetFailedArticles() + fileInfo->GetMissedArticles());
 		nzbInfo->SetCurrentSuccessArticles(nzbInfo->GetCurrentSuccessArticles() + fileInfo->GetSuccessArticles());
@@ -1309,11 +1311,13 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			srcNzbInfo->SetParSize(srcNzbInfo->GetParSize() - fileInfo->GetSize());
 			srcNzbInfo->SetParCurrentSuccessSize(srcNzbInfo->GetParCurrentSuccessSize() - fileInfo->GetSuccessSize());
 			srcNzbInfo->SetParCurrentFailedSize(srcNzbInfo->GetParCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
+			srcNzbInfo->SetParFailedSize(srcNzbInfo->GetParFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetRemainingParCount(srcNzbInfo->GetRemainingParCount() - 1);
 
 			nzbInfo->SetParSize(nzbInfo->GetParSize() + fileInfo->GetSize());
 			nzbInfo->SetParCurrentSuccessSize(nzbInfo->GetParCurrentSuccessSize() + fileInfo->GetSuccessSize());
 			nzbInfo->SetParCurrentFailedSize(nzbInfo->GetParCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
+			nzbInfo->SetParFailedSize(nzbInfo->GetParFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetRemainingParCount(nzbInfo->GetRemainingParCount() + 1);
 		}
 
-- 
2.43.0


From 449649c5b63c022aead21da21079c47a5d7a0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 15/61] fix: splitting left the count of extra-priority files
 with the source download

---
 daemon/queue/QueueCoordinator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 8d6d99a..5c434a6 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1329,6 +1329,12 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			nzbInfo->SetPausedFileCount(nzbInfo->GetPausedFileCount() + 1);
 			nzbInfo->SetPausedSize(nzbInfo->GetPausedSize() + fileInfo->GetRemainingSize());
 		}
+
+		if (fileInfo->GetExtraPriority())
+		{
+			srcNzbInfo->SetExtraPriority(srcNzbInfo->GetExtraPriority() - 1);
+			nzbInfo->SetExtraPriority(nzbInfo->GetExtraPriority() + 1);
+		}
 	}
 
 	nzbInfo->UpdateMinMaxTime();
-- 
2.43.0


From 76f68c9bb0b4c7f057c58fdad6442a301de904b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 16/61] fix: merging downloads lost the count of extra-priority
 files

---
 daemon/queue/QueueCoordinator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 5c434a6..4c8ce03 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1179,6 +1179,7 @@ bool QueueCoordinator::MergeQueueEntries(DownloadQueue* downloadQueue, NzbInfo*
 	destNzbInfo->SetRemainingSize(destNzbInfo->GetRemainingSize() + srcNzbInfo->GetRemainingSize());
 	destNzbInfo->SetPausedFileCount(destNzbInfo->GetPausedFileCount() + srcNzbInfo->GetPausedFileCount());
 	destNzbInfo->SetPausedSize(destNzbInfo->GetPausedSize() + srcNzbInfo->GetPausedSize());
+	destNzbInfo->SetExtraPriority(destNzbInfo->GetExtraPriority() + srcNzbInfo->GetExtraPriority());
 
 	destNzbInfo->SetSuccessSize(destNzbInfo->GetSuccessSize() + srcNzbInfo->GetSuccessSize());
 	destNzbInfo->SetCurrentSuccessSize(destNzbInfo->GetCurrentSuccessSize() + srcNzbInfo->GetCurrentSuccessSize());
-- 
2.43.0


From 8a7322e4f5d802216eb4f22ab482d9a768229bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:20 +0000
Subject: [PATCH 17/61] fix: queue edit commands with repeated ids used deleted
 or moved entries

---
 daemon/queue/QueueEditor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 8dc070d..474c452 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -605,7 +605,9 @@ void QueueEditor::PrepareList(ItemList* itemList, IdList* idList,
 			if (minId <= id && id <= maxId)
 			{
 				FileInfo* fileInfo = FindFileInfo(id);
-				if (fileInfo)
+				if (fileInfo &&
+					std::none_of(itemList->begin(), itemList->end(),
+						[fileInfo](const EditItem& item) { return item.m_fileInfo == fileInfo; }))
 				{
 					itemList->emplace_back(fileInfo, nullptr, offset);
 				}
@@ -637,7 +639,9 @@ void QueueEditor::PrepareList(ItemList* itemList, IdList* idList,
 			{
 				for (NzbInfo* nzbInfo : m_downloadQueue->GetQueue())
 				{
-					if (id == nzbInfo->GetId())
+					if (id == nzbInfo->GetId() &&
+						std::none_of(itemList->begin(), itemList->end(),
+							[nzbInfo](const EditItem& item) { return item.m_nzbInfo == nzbInfo; }))
 					{
 						itemList->emplace_back(nullptr, nzbInfo, offset);
 					}
-- 
2.43.0


From b2f9f6656a99e521d3edf24fef33d9d3bd9f8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:20 +0000
Subject: [PATCH 18/61] fix: merge command reported failure on success and
 success on failure

---
 daemon/queue/QueueEditor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 474c452..8ac01ed 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -1014,7 +1014,7 @@ bool QueueEditor::MergeGroups(ItemList* itemList)
 		if (item.m_nzbInfo != destItem.m_nzbInfo)
 		{
 			debug("merge %s to %s", item.m_nzbInfo->GetFilename(), destItem.m_nzbInfo->GetFilename());
-			if (g_QueueCoordinator->MergeQueueEntries(m_downloadQueue, destItem.m_nzbInfo, item.m_nzbInfo))
+			if (!g_QueueCoordinator->MergeQueueEntries(m_downloadQueue, destItem.m_nzbInfo, item.m_nzbInfo))
 			{
 				ok = false;
 			}
-- 
2.43.0


From af96c8dc6b03e0342bb5c4f5906bd084dab1a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:20 +0000
Subject: [PATCH 19/61] fix: split command with files of different downloads
 put null entries into the queue

---
 daemon/queue/QueueCoordinator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 4c8ce03..42d840e 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1258,6 +1258,11 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		{
 			srcNzbInfo = fileInfo->GetNzbInfo();
 		}
+		if (fileInfo->GetNzbInfo() != srcNzbInfo)
+		{
+			error("Could not split %s. Files belong to different downloads", fileInfo->GetFilename());
+			return false;
+		}
 	}
 
 	std::unique_ptr<NzbInfo> nzbInfo = std::make_unique<NzbInfo>();
-- 
2.43.0


From 58cf27cea6f5a7f4ab85e5ee1e2b84ab7f4a2a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 20/61] fix: files with the highest priority were passed over
 if another download had extra priority files

---
 daemon/queue/QueueCoordinator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 42d840e..8d23391 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -525,10 +525,10 @@ bool QueueCoordinator::GetNextArticle(DownloadQueue* downloadQueue, FileInfo* &f
 
 		for (NzbInfo* nzbInfo : downloadQueue->GetQueue())
 		{
+			// may contain a file with a higher priority than the current candidate
 			bool nzbHigherPriority = fileInfo &&
-				((nzbInfo->HasExtraPriority() == fileInfo->GetNzbInfo()->HasExtraPriority() &&
-					nzbInfo->GetPriority() > fileInfo->GetNzbInfo()->GetPriority()) ||
-					(nzbInfo->HasExtraPriority() > fileInfo->GetNzbInfo()->HasExtraPriority()));
+				(nzbInfo->GetPriority() > fileInfo->GetNzbInfo()->GetPriority() ||
+					(nzbInfo->HasExtraPriority() && !fileInfo->GetExtraPriority()));
 
 			bool nzbPaused = nzbInfo->GetFileList()->size() - nzbInfo->GetPausedFileCount() <= 0;
 
-- 
2.43.0


From 5887e3175c9df03aeeae288c0fc434216e8db6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 21/61] fix: articles of deleted files were downloaded by
 direct rename

---
 daemon/queue/QueueCoordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 8d23391..d69b12f 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -603,7 +603,7 @@ bool QueueCoordinator::GetNextFirstArticle(NzbInfo* nzbInfo, FileInfo* &fileInfo
 	// find a file not renamed yet
 	for (FileInfo* fileInfo1 : nzbInfo->GetFileList())
 	{
-		if (!fileInfo1->GetFilenameConfirmed())
+		if (!fileInfo1->GetFilenameConfirmed() && !fileInfo1->GetDeleted())
 		{
 			if (fileInfo1->GetArticles()->empty() && g_Options->GetServerMode())
 			{
-- 
2.43.0


From bd627537bf7952f4e91e57a75db6360f2373c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 22/61] fix: duplicates with exactly same content or
 good-status were overlooked if another duplicate came first in history

---
 daemon/queue/DupeCoordinator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DupeCoordinator.cpp b/daemon/queue/DupeCoordinator.cpp
index 679b5fb..f01fc57 100644
--- a/daemon/queue/DupeCoordinator.cpp
+++ b/daemon/queue/DupeCoordinator.cpp
@@ -174,6 +174,13 @@ void DupeCoordinator::NzbFound(DownloadQueue* downloadQueue, NzbInfo* nzbInfo)
 			break;
 		}
 
+		// same content (checked above) has precedence over good-status, good-status over success-status;
+		// therefore the search must be continued
+		if (good)
+		{
+			continue;
+		}
+
 		if (historyInfo->GetKind() == HistoryInfo::hkNzb &&
 			historyInfo->GetNzbInfo()->GetDupeMode() != dmForce &&
 			historyInfo->GetNzbInfo()->GetMarkStatus() == NzbInfo::ksGood &&
@@ -183,7 +190,7 @@ void DupeCoordinator::NzbFound(DownloadQueue* downloadQueue, NzbInfo* nzbInfo)
 			skip = true;
 			good = true;
 			dupeName = historyInfo->GetNzbInfo()->GetName();
-			break;
+			continue;
 		}
 
 		if (historyInfo->GetKind() == HistoryInfo::hkDup &&
@@ -198,7 +205,6 @@ void DupeCoordinator::NzbFound(DownloadQueue* downloadQueue, NzbInfo* nzbInfo)
 			skip = true;
 			good = historyInfo->GetDupInfo()->GetStatus() == DupInfo::dsGood;
 			dupeName = historyInfo->GetDupInfo()->GetName();
-			break;
 		}
 	}
 
-- 
2.43.0


From cbaf4176de14ecfb1ab529bda636b51115b5c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 23/61] fix: long texts overflowed the line buffer when saving
 the download queue

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 89a0690..c752b1d 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -45,7 +45,7 @@ int64 StateDiskFile::PrintLine(const char* format, ...)
 {
 	va_list ap;
 	va_start(ap, format);
-	BString<1024> str;
+	CString str;
 	int len = str.FormatV(format, ap);
 	va_end(ap);
 
-- 
2.43.0


From 8f2b0569dedbc5aeb48cf2c4f249582f3174bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 24/61] fix: duplicate mode was lost and duplicate hint was not
 restored when loading the download queue

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index c752b1d..ae4cb42 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -817,7 +817,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 	}
 	nzbInfo->SetDupeMode((EDupeMode)dupeMode);
 	nzbInfo->SetDupeScore(dupeScore);
-	nzbInfo->SetDupeMode((EDupeMode)dupeHint);
+	nzbInfo->SetDupeHint((NzbInfo::EDupeHint)dupeHint);
 
 	if (formatVersion >= 48)
 	{
-- 
2.43.0


From 8e528a0d256a648f118c192be038743e98019869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 25/61] fix: post-processing stage was restored wrong when
 loading the download queue

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index ae4cb42..b9fcf54 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -689,7 +689,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 		{
 			postStage += 2;
 		}
-		nzbInfo->GetPostInfo()->SetStage((PostInfo::EStage)postStage);
+		nzbInfo->GetPostInfo()->SetStage((PostInfo::EStage)(postStage - 1));
 	}
 	nzbInfo->SetFeedId(feedId);
 
-- 
2.43.0


From 3b9e9f886a1d8c112e6f6d32c9c6c41b9efaee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 26/61] fix: article offsets above 4 GB were cut when saving
 file states

---
 daemon/queue/DiskState.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index b9fcf54..fe99aee 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1208,7 +1208,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool c
 	outfile.PrintLine("%i", (int)fileInfo->GetArticles()->size());
 	for (ArticleInfo* articleInfo : fileInfo->GetArticles())
 	{
-		outfile.PrintLine("%i,%u,%i,%u", (int)articleInfo->GetStatus(), (uint32)articleInfo->GetSegmentOffset(),
+		outfile.PrintLine("%i,%" PRIi64 ",%i,%u", (int)articleInfo->GetStatus(), articleInfo->GetSegmentOffset(),
 			articleInfo->GetSegmentSize(), (uint32)articleInfo->GetCrc());
 	}
 
@@ -1288,9 +1288,10 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 
 		if (formatVersion >= 2)
 		{
-			uint32 segmentOffset, crc;
+			int64 segmentOffset;
+			uint32 crc;
 			int segmentSize;
-			if (infile.ScanLine("%i,%u,%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
+			if (infile.ScanLine("%i,%" PRIi64 ",%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
 			pa->SetSegmentOffset(segmentOffset);
 			pa->SetSegmentSize(segmentSize);
 			pa->SetCrc(crc);
-- 
2.43.0


From fa8466e98e6171195910b7eb291b65eb4cfbb727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 27/61] fix: undefined original names when loading the download
 queue saved by older versions

---
 daemon/queue/DiskState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index fe99aee..ba0e25c 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -846,6 +846,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 		char* parSetId = nullptr;
 		char filenameBuf[1024];
 		char origName[1024];
+		origName[0] = '\0';
 
 		if (formatVersion >= 49)
 		{
-- 
2.43.0


From e1a41c050d580752f778293fb1eea43e6b22107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 28/61] fix: crash when loading a damaged file state

---
 daemon/queue/DiskState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index ba0e25c..2cb0243 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1277,6 +1277,7 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 
 	int size;
 	if (infile.ScanLine("%i", &size) != 1) goto error;
+	if (hasArticles && size > (int)fileInfo->GetArticles()->size()) goto error;
 	for (int i = 0; i < size; i++)
 	{
 		if (!hasArticles)
-- 
2.43.0


From 61be5f075e542418a6c448b2108cf61d669e4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 29/61] fix: crash when loading a damaged history

---
 daemon/queue/DiskState.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 2cb0243..47171b6 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1462,6 +1462,10 @@ bool DiskState::LoadHistory(HistoryList* history, Servers* servers, StateDiskFil
 			dupInfo->SetId(id);
 			historyInfo = std::make_unique<HistoryInfo>(std::move(dupInfo));
 		}
+		else
+		{
+			goto error;
+		}
 
 		historyInfo->SetTime((time_t)time);
 
-- 
2.43.0


From 4ffd85697e8f96b311ab33ee6bdcee862ae16f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 30/61] fix: crash when loading damaged statistics

---
 daemon/queue/DiskState.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 47171b6..c054afc 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -2373,11 +2373,14 @@ bool DiskState::LoadVolumeStat(Servers* servers, ServerVolumes* serverVolumes, S
 
 			int arrSize;
 			if (infile.ScanLine("%i", &arrSize) != 1) goto error;
-			if (volumeArray) volumeArray->resize(arrSize);
+			// seconds, minutes and hours have fixed sizes
+			if (arrSize < 0 || (volumeArray && k < 3 && arrSize != (int)volumeArray->size())) goto error;
+			if (volumeArray && k == 3) volumeArray->clear();
 
 			for (int j = 0; j < arrSize; j++)
 			{
 				if (infile.ScanLine("%u,%u", &High1, &Low1) != 2) goto error;
+				if (volumeArray && k == 3) volumeArray->push_back(0);
 				if (volumeArray) (*volumeArray)[j] = Util::JoinInt64(High1, Low1);
 			}
 		}
-- 
2.43.0


From ffa3992f93c6cd934885313e95e197fb0d212583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 31/61] fix: statistics of servers with long host or user names
 were lost on restart

---
 daemon/queue/DiskState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index c054afc..0f31ac0 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -2242,13 +2242,13 @@ bool DiskState::LoadServerInfo(Servers* servers, StateDiskFile& infile, int form
 		char name[1024];
 		if (!infile.ReadLine(name, sizeof(name))) goto error;
 
-		char host[200];
+		char host[1024];
 		if (!infile.ReadLine(host, sizeof(host))) goto error;
 
 		int port;
 		if (infile.ScanLine("%i", &port) != 1) goto error;
 
-		char user[100];
+		char user[1024];
 		if (!infile.ReadLine(user, sizeof(user))) goto error;
 
 		std::unique_ptr<ServerRef> ref = std::make_unique<ServerRef>();
-- 
2.43.0


From cc522cbeabaffeace7b58efa4aafcd17cd2c20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 32/61] fix: download queue was discarded if the program was
 terminated while replacing the queue file

---
 daemon/queue/DiskState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 0f31ac0..438630d 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1525,8 +1525,8 @@ bool DiskState::DownloadQueueExists()
 {
 	debug("Checking if a saved queue exists on disk");
 
-	return FileSystem::FileExists(BString<1024>("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, "queue")) ||
-		FileSystem::FileExists(BString<1024>("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, "history"));
+	return StateFile("queue", DISKSTATE_QUEUE_VERSION, true).FileExists() ||
+		StateFile("history", DISKSTATE_QUEUE_VERSION, true).FileExists();
 }
 
 void DiskState::DiscardFile(int fileId, bool deleteData, bool deletePartialState, bool deleteCompletedState)
-- 
2.43.0


From 79524b4db836fb22294b43c61e0bb8d4c22fe79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 33/61] fix: incompletely written or obsolete state files could
 be restored after the program was terminated while saving

---
 daemon/queue/DiskState.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 438630d..db8cf03 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -115,6 +115,7 @@ public:
 private:
 	BString<1024> m_destFilename;
 	BString<1024> m_tempFilename;
+	BString<1024> m_newFilename;
 	int m_formatVersion;
 	bool m_transactional;
 	int m_fileVersion;
@@ -130,7 +131,9 @@ StateFile::StateFile(const char* filename, int formatVersion, bool transactional
 	m_destFilename.Format("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, filename);
 	if (m_transactional)
 	{
-		m_tempFilename.Format("%s%c%s.new", g_Options->GetQueueDir(), PATH_SEPARATOR, filename);
+		// the file is being written as ".tmp", a completely written file is named ".new"
+		m_tempFilename.Format("%s%c%s.tmp", g_Options->GetQueueDir(), PATH_SEPARATOR, filename);
+		m_newFilename.Format("%s%c%s.new", g_Options->GetQueueDir(), PATH_SEPARATOR, filename);
 	}
 	else
 	{
@@ -140,6 +143,11 @@ StateFile::StateFile(const char* filename, int formatVersion, bool transactional
 
 void StateFile::Discard()
 {
+	if (m_transactional)
+	{
+		// must be deleted first or it would be restored in place of the discarded file
+		FileSystem::DeleteFile(m_newFilename);
+	}
 	FileSystem::DeleteFile(m_destFilename);
 }
 
@@ -157,7 +165,7 @@ int StateFile::ParseFormatVersion(const char* formatSignature)
 
 bool StateFile::FileExists()
 {
-	return FileSystem::FileExists(m_destFilename) || (m_transactional && FileSystem::FileExists(m_tempFilename));
+	return FileSystem::FileExists(m_destFilename) || (m_transactional && FileSystem::FileExists(m_newFilename));
 }
 
 StateDiskFile* StateFile::BeginWrite()
@@ -197,11 +205,18 @@ bool StateFile::FinishWrite()
 	m_file.Close();
 
 	// now rename to dest file name
+	FileSystem::DeleteFile(m_newFilename);
+	if (!FileSystem::MoveFile(m_tempFilename, m_newFilename))
+	{
+		error("Error saving diskstate: Could not rename file %s to %s: %s",
+			*m_tempFilename, *m_newFilename, *FileSystem::GetLastErrorMessage());
+		return false;
+	}
 	FileSystem::DeleteFile(m_destFilename);
-	if (!FileSystem::MoveFile(m_tempFilename, m_destFilename))
+	if (!FileSystem::MoveFile(m_newFilename, m_destFilename))
 	{
 		error("Error saving diskstate: Could not rename file %s to %s: %s",
-			*m_tempFilename, *m_destFilename, *FileSystem::GetLastErrorMessage());
+			*m_newFilename, *m_destFilename, *FileSystem::GetLastErrorMessage());
 		return false;
 	}
 
@@ -221,14 +236,14 @@ bool StateFile::FinishWrite()
 
 StateDiskFile* StateFile::BeginRead()
 {
-	if (!FileSystem::FileExists(m_destFilename) && FileSystem::FileExists(m_tempFilename))
+	if (m_transactional && !FileSystem::FileExists(m_destFilename) && FileSystem::FileExists(m_newFilename))
 	{
-		// disaster recovery: temp-file exists but the dest-file doesn't
-		warn("Restoring diskstate file %s from %s", FileSystem::BaseFileName(m_destFilename), FileSystem::BaseFileName(m_tempFilename));
-		if (!FileSystem::MoveFile(m_tempFilename, m_destFilename))
+		// disaster recovery: new-file exists but the dest-file doesn't
+		warn("Restoring diskstate file %s from %s", FileSystem::BaseFileName(m_destFilename), FileSystem::BaseFileName(m_newFilename));
+		if (!FileSystem::MoveFile(m_newFilename, m_destFilename))
 		{
 			error("Error restoring diskstate: Could not rename file %s to %s: %s",
-				*m_tempFilename, *m_destFilename, *FileSystem::GetLastErrorMessage());
+				*m_newFilename, *m_destFilename, *FileSystem::GetLastErrorMessage());
 			return nullptr;
 		}
 	}
-- 
2.43.0


From 1a931fac808e11004cedef5e9f91a317231243f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 34/61] fix: history was lost if the program was terminated
 between saving the queue and discarding the progress

---
 daemon/queue/DiskState.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index db8cf03..89247ee 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -533,10 +533,13 @@ bool DiskState::LoadProgress(NzbList* queue, Servers* servers, StateDiskFile& in
 		if (infile.ScanLine("%i", &id) != 1) goto error;
 
 		NzbInfo* nzbInfo = queue->Find(id);
+		std::unique_ptr<NzbInfo> obsoleteInfo;
 		if (!nzbInfo)
 		{
-			error("NZB with id %i could not be found", id);
-			goto error;
+			// program was terminated after the queue was saved but before the progress was discarded
+			warn("NZB with id %i could not be found", id);
+			obsoleteInfo = std::make_unique<NzbInfo>();
+			nzbInfo = obsoleteInfo.get();
 		}
 
 		if (!LoadNzbInfo(nzbInfo, servers, infile, formatVersion)) goto error;
-- 
2.43.0


From 95efd96bf9333ee50bc999ddf3a68226f2ba9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 35/61] fix: good state files were replaced with incomplete
 ones if the disk was full

---
 daemon/queue/DiskState.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 89247ee..2133f7c 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -184,6 +184,15 @@ StateDiskFile* StateFile::BeginWrite()
 
 bool StateFile::FinishWrite()
 {
+	// errors may also occur in previous writes
+	if (!m_file.Flush() || m_file.Error())
+	{
+		error("Error saving diskstate: Could not write file %s: %s",
+			*m_tempFilename, *FileSystem::GetLastErrorMessage());
+		m_file.Close();
+		return false;
+	}
+
 	if (!m_transactional)
 	{
 		m_file.Close();
-- 
2.43.0


From 2b10cd78f0b11dd576d43db265a6379cd2f300bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 36/61] fix: file infos and file states were lost if the
 program was terminated while saving them

---
 daemon/queue/DiskState.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 2133f7c..e9b0e1c 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1050,7 +1050,7 @@ bool DiskState::SaveFile(FileInfo* fileInfo)
 	debug("Saving FileInfo %i to disk", fileInfo->GetId());
 
 	BString<100> filename("%i", fileInfo->GetId());
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true);
 
 	StateDiskFile* outfile = stateFile.BeginWrite();
 	if (!outfile)
@@ -1108,7 +1108,7 @@ bool DiskState::LoadFile(FileInfo* fileInfo, bool fileSummary, bool articles)
 	debug("Loading FileInfo %i from disk", fileInfo->GetId());
 
 	BString<100> filename("%i", fileInfo->GetId());
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true);
 
 	StateDiskFile* infile = stateFile.BeginRead();
 	if (!infile)
@@ -1205,7 +1205,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, bool completed)
 	debug("Saving FileState %i to disk", fileInfo->GetId());
 
 	BString<100> filename("%i%s", fileInfo->GetId(), completed ? "c" : "s");
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true);
 
 	StateDiskFile* outfile = stateFile.BeginWrite();
 	if (!outfile)
@@ -1213,7 +1213,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, bool completed)
 		return false;
 	}
 
-	return SaveFileState(fileInfo, *outfile, completed);
+	return SaveFileState(fileInfo, *outfile, completed) && stateFile.FinishWrite();
 }
 
 bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool completed)
@@ -1240,7 +1240,6 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool c
 			articleInfo->GetSegmentSize(), (uint32)articleInfo->GetCrc());
 	}
 
-	outfile.Close();
 	return true;
 }
 
@@ -1249,7 +1248,7 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, bool complet
 	debug("Loading FileInfo %i from disk", fileInfo->GetId());
 
 	BString<100> filename("%i%s", fileInfo->GetId(), completed ? "c" : "s");
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true);
 
 	StateDiskFile* infile = stateFile.BeginRead();
 	if (!infile)
@@ -1558,27 +1557,22 @@ bool DiskState::DownloadQueueExists()
 
 void DiskState::DiscardFile(int fileId, bool deleteData, bool deletePartialState, bool deleteCompletedState)
 {
-	BString<1024> fileName;
-
 	// info and articles file
 	if (deleteData)
 	{
-		fileName.Format("%s%c%i", g_Options->GetQueueDir(), PATH_SEPARATOR, fileId);
-		FileSystem::DeleteFile(fileName);
+		StateFile(BString<100>("%i", fileId), DISKSTATE_FILE_VERSION, true).Discard();
 	}
 
 	// partial state file
 	if (deletePartialState)
 	{
-		fileName.Format("%s%c%is", g_Options->GetQueueDir(), PATH_SEPARATOR, fileId);
-		FileSystem::DeleteFile(fileName);
+		StateFile(BString<100>("%is", fileId), DISKSTATE_FILE_VERSION, true).Discard();
 	}
 
 	// completed state file
 	if (deleteCompletedState)
 	{
-		fileName.Format("%s%c%ic", g_Options->GetQueueDir(), PATH_SEPARATOR, fileId);
-		FileSystem::DeleteFile(fileName);
+		StateFile(BString<100>("%ic", fileId), DISKSTATE_FILE_VERSION, true).Discard();
 	}
 }
 
@@ -1997,7 +1991,8 @@ bool DiskState::LoadAllFileStates(DownloadQueue* downloadQueue, Servers* servers
 		char suffix;
 		if (sscanf(filename, "%i%c", &id, &suffix) == 2)
 		{
-			if (suffix == 'c' || (suffix == 's' && g_Options->GetContinuePartial() && !cacheWasActive))
+			bool incomplete = strstr(filename, ".tmp") != nullptr;
+			if (!incomplete && (suffix == 'c' || (suffix == 's' && g_Options->GetContinuePartial() && !cacheWasActive)))
 			{
 				for (NzbInfo* nzbInfo : downloadQueue->GetQueue())
 				{
-- 
2.43.0


From 795ce3be5d57d73e5123565573a43467947d4270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 37/61] fix: ended post-processing was restored when loading
 the download progress

---
 daemon/queue/DiskState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index e9b0e1c..1f32933 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -718,6 +718,11 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 		}
 		nzbInfo->GetPostInfo()->SetStage((PostInfo::EStage)(postStage - 1));
 	}
+	else if (nzbInfo->GetPostInfo())
+	{
+		// loading progress: post-processing has ended after the queue was saved
+		nzbInfo->LeavePostProcess();
+	}
 	nzbInfo->SetFeedId(feedId);
 
 	int parStatus, unpackStatus, moveStatus, parRenameStatus, rarRenameStatus,
-- 
2.43.0


From d33c79cc4d8a66ffaac9b5ab41894f505bb9e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:55 +0000
Subject: [PATCH 38/61] fix: state file was lost if the program was terminated
 after the previous replacing of the file has failed

---
 daemon/queue/DiskState.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 1f32933..275b5ac 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -214,7 +214,15 @@ bool StateFile::FinishWrite()
 	m_file.Close();
 
 	// now rename to dest file name
-	FileSystem::DeleteFile(m_newFilename);
+	if (FileSystem::FileExists(m_destFilename))
+	{
+		FileSystem::DeleteFile(m_newFilename);
+	}
+	else
+	{
+		// the only copy must remain available until the new file takes its place
+		FileSystem::MoveFile(m_newFilename, m_destFilename);
+	}
 	if (!FileSystem::MoveFile(m_tempFilename, m_newFilename))
 	{
 		error("Error saving diskstate: Could not rename file %s to %s: %s",
-- 
2.43.0


From 37608c01f5d425a4e323bf1c3f0cea7092e1265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 39/61] fix: uuencoded articles were written undecoded

---
 daemon/nntp/Decoder.cpp | 32 +++++++++++++++++++++++---------
 daemon/nntp/Decoder.h   |  3 ++-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 54e5e00..07b9cc7 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -59,8 +59,9 @@ void Decoder::Clear()
  * At the end of yEnc-data switches back to line by line mode to
  * process '=yend'-marker and EOF-marker.
  * UU-encoded articles are processed completely in line by line mode.
+ * On return "buffer" points to decoded data.
  */
-int Decoder::DecodeBuffer(char* buffer, int len)
+int Decoder::DecodeBuffer(char*& buffer, int len)
 {
 	if (m_rawMode)
 	{
@@ -84,6 +85,7 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 	}
 
 	char* line = (char*)m_lineBuf;
+	m_uxBuf.clear();
 	while (char* end = strchr(line, '\n'))
 	{
 		int llen = (int)(end - line + 1);
@@ -91,8 +93,9 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 		if (line[0] == '.' && line[1] == '\r')
 		{
 			m_eof = true;
-			m_lineBuf.SetLength(0);
-			return outlen;
+			line = end; // the rest isn't needed
+			*line = '\0';
+			break;
 		}
 
 		if (m_format == efUnknown)
@@ -117,7 +120,11 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 		}
 		else if (m_format == efUx)
 		{
-			outlen += DecodeUx(line, llen);
+			// leading dot is doubled on transmission
+			int dot = line[0] == '.' ? 1 : 0;
+			int uxlen = DecodeUx(line + dot, llen - dot);
+			m_uxBuf.insert(m_uxBuf.end(), line + dot, line + dot + uxlen);
+			outlen += uxlen;
 		}
 
 		line = end + 1;
@@ -134,6 +141,12 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 		m_lineBuf.SetLength(0);
 	}
 
+	if (m_format == efUx)
+	{
+		// decoded data may be larger than the buffer if it begins with a line received earlier
+		buffer = m_uxBuf.data();
+	}
+
 	return outlen;
 }
 
@@ -144,7 +157,7 @@ Decoder::EFormat Decoder::DetectFormat(const char* buffer, int len)
 		return efYenc;
 	}
 
-	if ((len == 62 || len == 63) && (buffer[62] == '\n' || buffer[62] == '\r') && *buffer == 'M')
+	if ((len == 62 || len == 63) && (buffer[61] == '\n' || buffer[61] == '\r') && *buffer == 'M')
 	{
 		return efUx;
 	}
@@ -342,13 +355,13 @@ int Decoder::DecodeUx(char* buffer, int len)
 			m_body = true;
 			return 0;
 		}
-		else if ((len == 62 || len == 63) && (buffer[62] == '\n' || buffer[62] == '\r') && *buffer == 'M')
+		else if ((len == 62 || len == 63) && (buffer[61] == '\n' || buffer[61] == '\r') && *buffer == 'M')
 		{
 			m_body = true;
 		}
 	}
 
-	if (m_body && (!strncmp(buffer, "end ", 4) || *buffer == '`'))
+	if (m_body && (!strncmp(buffer, "end ", 4) || !strncmp(buffer, "end\r", 4) || *buffer == '`'))
 	{
 		m_end = true;
 	}
@@ -356,9 +369,10 @@ int Decoder::DecodeUx(char* buffer, int len)
 	if (m_body && !m_end)
 	{
 		int effLen = UU_DECODE_CHAR(buffer[0]);
-		if (effLen > len)
+		int groupLen = effLen / 3 * 4 + (effLen % 3 > 0 ? effLen % 3 + 1 : 0);
+		if (groupLen > len - 2)
 		{
-			// error;
+			// error; line must have length byte, data and line end
 			return 0;
 		}
 
diff --git a/daemon/nntp/Decoder.h b/daemon/nntp/Decoder.h
index ba8ac7e..93739db 100644
--- a/daemon/nntp/Decoder.h
+++ b/daemon/nntp/Decoder.h
@@ -47,7 +47,7 @@ public:
 	Decoder();
 	EStatus Check();
 	void Clear();
-	int DecodeBuffer(char* buffer, int len);
+	int DecodeBuffer(char*& buffer, int len);
 	void SetCrcCheck(bool crcCheck) { m_crcCheck = crcCheck; }
 	void SetRawMode(bool rawMode) { m_rawMode = rawMode; }
 	EFormat GetFormat() { return m_format; }
@@ -79,6 +79,7 @@ private:
 	bool m_rawMode = false;
 	CString m_articleFilename;
 	StringBuilder m_lineBuf;
+	std::vector<char> m_uxBuf;
 	Crc32 m_crc32;
 
 	EFormat DetectFormat(const char* buffer, int len);
-- 
2.43.0


From 0cfd3cee3bcacb3350b7ffe253d9802dc2f814e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 40/61] fix: end of raw articles was missed if received in
 small parts or read past the buffer

---
 daemon/nntp/Decoder.cpp | 57 ++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 07b9cc7..4ba8db9 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -414,47 +414,24 @@ Decoder::EStatus Decoder::CheckUx()
 
 void Decoder::ProcessRaw(char* buffer, int len)
 {
-	switch (m_state)
-	{
-		case 1:
-			m_eof = len >= 4 && buffer[0] == '\n' &&
-				buffer[1] == '.' && buffer[2] == '\r' && buffer[3] == '\n';
-			break;
-
-		case 2:
-			m_eof = len >= 3 && buffer[0] == '.' && buffer[1] == '\r' && buffer[2] == '\n';
-			break;
-
-		case 3:
-			m_eof = len >= 2 && buffer[0] == '\r' && buffer[1] == '\n';
-			break;
-
-		case 4:
-			m_eof = len >= 1 && buffer[0] == '\n';
-			break;
-	}
+	static const char eofMarker[] = "\r\n.\r\n";
 
-	m_eof |= len >= 5 && strstr(buffer, "\r\n.\r\n");
-
-	if (len >= 4 && buffer[len-4] == '\r' && buffer[len-3] == '\n' &&
-		buffer[len-2] == '.' && buffer[len-1] == '\r')
-	{
-		m_state = 4;
-	}
-	else if (len >= 3 && buffer[len-3] == '\r' && buffer[len-2] == '\n' && buffer[len-1] == '.')
-	{
-		m_state = 3;
-	}
-	else if (len >= 2 && buffer[len-2] == '\r' && buffer[len-1] == '\n')
+	// the marker can be split between buffers, "m_state" is the number of its bytes received so far
+	for (int i = 0; i < len; i++)
 	{
-		m_state = 2;
-	}
-	else if (len >= 1 && buffer[len-1] == '\r')
-	{
-		m_state = 1;
-	}
-	else
-	{
-		m_state = 0;
+		if (buffer[i] == eofMarker[(int)m_state])
+		{
+			m_state++;
+		}
+		else
+		{
+			m_state = buffer[i] == '\r' ? 1 : 0;
+		}
+
+		if (!eofMarker[(int)m_state])
+		{
+			m_eof = true;
+			m_state = 0;
+		}
 	}
 }
-- 
2.43.0


From f05c2bf7d5034cccc0f49bbeb9499abaf4334243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 41/61] fix: single-part articles with " part=" in file name
 weren't decoded

---
 daemon/nntp/Decoder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 4ba8db9..a36a738 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -189,7 +189,8 @@ void Decoder::ProcessYenc(char* buffer, int len)
 	if (!strncmp(buffer, "=ybegin ", 8))
 	{
 		m_begin = true;
-		char* pb = strstr(buffer, " name=");
+		char* name = strstr(buffer, " name=");
+		char* pb = name;
 		if (pb)
 		{
 			pb += 6; //=strlen(" name=")
@@ -203,7 +204,9 @@ void Decoder::ProcessYenc(char* buffer, int len)
 			pb += 6; //=strlen(" size=")
 			m_size = (int64)atoll(pb);
 		}
-		m_part = strstr(buffer, " part=");
+		// name is always the last one and can contain anything
+		char* part = strstr(buffer, " part=");
+		m_part = part && (!name || part < name);
 		if (!m_part)
 		{
 			m_body = true;
-- 
2.43.0


From 6aa779d7e0dd8ff2d43db6fea0ed8821eb998b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 42/61] fix: decoded data was overwritten by following yEnc
 parts of the same article, format of the previous article was kept

---
 daemon/nntp/Decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index a36a738..1171523 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -34,6 +34,7 @@ Decoder::Decoder()
 
 void Decoder::Clear()
 {
+	m_format = efUnknown;
 	m_articleFilename.Clear();
 	m_body = false;
 	m_begin = false;
@@ -108,7 +109,7 @@ int Decoder::DecodeBuffer(char*& buffer, int len)
 			ProcessYenc(line, llen);
 			if (m_body)
 			{
-				outlen = DecodeYenc(end + 1, buffer, m_lineBuf.Length() - (int)(end + 1 - m_lineBuf));
+				outlen += DecodeYenc(end + 1, buffer + outlen, m_lineBuf.Length() - (int)(end + 1 - m_lineBuf));
 				if (m_body)
 				{
 					m_lineBuf.SetLength(0);
-- 
2.43.0


From 344e7af0402ad3f8ea7752596c48c9ed2d8dc62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 43/61] fix: text following yEnc data was copied within
 overlapping memory

---
 daemon/nntp/Decoder.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 1171523..2318a8e 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -266,12 +266,17 @@ int Decoder::DecodeYenc(char* buffer, char* outbuf, int len)
 	if (endseq != 0)
 	{
 		// switch back to line mode to process '=yend'- or eof- marker
+		int rem = len - (int)((const char*)src - buffer);
+		CString remText;
+		if (rem > 0)
+		{
+			remText.Set((const char*)src, rem); // "src" may point into m_lineBuf
+		}
 		m_lineBuf.SetLength(0);
 		m_lineBuf.Append(endseq == 1 ? "=y" : ".\r\n");
-		int rem = len - (int)((const char*)src - buffer);
 		if (rem > 0)
 		{
-			m_lineBuf.Append((const char*)src, rem);
+			m_lineBuf.Append(remText, rem);
 		}
 		m_body = false;
 	}
-- 
2.43.0


From 7a816b3dc6da78a6ea22f030bbdb67f286d7f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 44/61] fix: statistics of minutes and hours passed over
 without traffic were kept from the previous hour or day

---
 daemon/nntp/StatMeter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 737406d..38a6d30 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -86,7 +86,7 @@ void ServerVolume::AddData(int bytes)
 			m_bytesPerSeconds[nulSlot] = 0;
 		}
 
-		int minDelta = totalDelta / 60;
+		int minDelta = abs((int)(locCurTime / 60 - locDataTime / 60));
 		if (deltaSign < 0) minDelta++;
 		if (abs(minDelta) >= 60) minDelta = 60;
 		if (minDelta == 0 && m_minSlot != lastMinSlot) minDelta = 1;
@@ -98,7 +98,7 @@ void ServerVolume::AddData(int bytes)
 			m_bytesPerMinutes[nulSlot] = 0;
 		}
 
-		int hourDelta = totalDelta / (60 * 60);
+		int hourDelta = abs((int)(locCurTime / (60 * 60) - locDataTime / (60 * 60)));
 		if (deltaSign < 0) hourDelta++;
 		if (hourDelta >= 24) hourDelta = 24;
 		if (hourDelta == 0 && m_hourSlot != lastHourSlot) hourDelta = 1;
-- 
2.43.0


From d2b9d00f84d3cc34da433671e9e2930326ee63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 45/61] fix: daily statistics were moved to other days if the
 clock was set before the first day

---
 daemon/nntp/StatMeter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 38a6d30..779d10c 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -39,10 +39,16 @@ void ServerVolume::CalcSlots(time_t locCurTime)
 	if (0 <= m_daySlot && m_daySlot < DAYS_IN_TWENTY_YEARS)
 	{
 		int curDay = daysSince1970;
-		if (m_firstDay == 0 || m_firstDay > curDay)
+		if (m_firstDay == 0)
 		{
 			m_firstDay = curDay;
 		}
+		else if (m_firstDay > curDay)
+		{
+			// keep the collected days at their dates
+			m_bytesPerDays.insert(m_bytesPerDays.begin(), m_firstDay - curDay, 0);
+			m_firstDay = curDay;
+		}
 		m_daySlot = curDay - m_firstDay;
 		if (m_daySlot + 1 > (int)m_bytesPerDays.size())
 		{
-- 
2.43.0


From 0888b46b4e3db249f1d6173d6d968c0ff79ac769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:53 +0000
Subject: [PATCH 46/61] fix: crash on calculating of quotas if the clock was
 set before the first day of statistics

---
 daemon/nntp/StatMeter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 779d10c..f378a69 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -498,7 +498,7 @@ void StatMeter::CalcQuotaUsage(int64& monthBytes, int64& dayBytes)
 	int daySlot = (int)(locTime / 86400) - totalVolume.GetFirstDay();
 
 	dayBytes = 0;
-	if (daySlot < (int)totalVolume.BytesPerDays()->size())
+	if (daySlot >= 0 && daySlot < (int)totalVolume.BytesPerDays()->size())
 	{
 		dayBytes = totalVolume.BytesPerDays()->at(daySlot);
 	}
-- 
2.43.0


From aea523e45acd4427cdf5fadc43f026b777b99d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:17 +0000
Subject: [PATCH 47/61] fix: restricted users could read the configuration
 including passwords via system.multicall

---
 daemon/remote/XmlRpc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index f1eed38..18d394b 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -470,6 +470,9 @@ void XmlRpcProcessor::MutliCall()
 
 		std::unique_ptr<XmlCommand> command = CreateCommand(methodName);
 		command->SetRequest(requestPtr);
+		command->SetProtocol(m_protocol);
+		command->SetHttpMethod(m_httpMethod);
+		command->SetUserAccess(m_userAccess);
 		m_safeMethod |= command->IsSafeMethod();
 		command->Execute();
 
-- 
2.43.0


From 5e6e6016f71f11031e0dd3ff7981893029aa1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:17 +0000
Subject: [PATCH 48/61] fix: read outside of the buffer if the URL of a web
 request was empty

---
 daemon/remote/WebServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index 8db12ce..627cfc7 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -202,6 +202,11 @@ void WebProcessor::ParseHeaders()
 
 void WebProcessor::ParseUrl()
 {
+	if (Util::EmptyStr(m_url))
+	{
+		return;
+	}
+
 	// remove subfolder "nzbget" from the path (if exists)
 	// http://localhost:6789/nzbget/username:password/jsonrpc -> http://localhost:6789/username:password/jsonrpc
 	if (!strncmp(m_url, "/nzbget/", 8))
-- 
2.43.0


From 3e9837086b64036f3b096f3f9f71c82706311f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:17 +0000
Subject: [PATCH 49/61] fix: file names could become empty and categories could
 lead out of the destination directory

---
 daemon/util/FileSystem.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/daemon/util/FileSystem.cpp b/daemon/util/FileSystem.cpp
index c1c0526..7f87c7a 100644
--- a/daemon/util/FileSystem.cpp
+++ b/daemon/util/FileSystem.cpp
@@ -417,6 +417,30 @@ CString FileSystem::MakeValidFilename(const char* filename, bool allowSlashes)
 		result[len - 1] = '\0';
 	}
 
+	if (allowSlashes)
+	{
+		// path components "." and ".." are not allowed, they would lead to another directory
+		for (char* comp = result; comp; )
+		{
+			size_t dots = strspn(comp, ".");
+			if (dots > 0 && (comp[dots] == PATH_SEPARATOR || comp[dots] == '\0'))
+			{
+				memset(comp, '_', dots);
+			}
+			comp = strchr(comp, PATH_SEPARATOR);
+			if (comp)
+			{
+				comp++;
+			}
+		}
+	}
+
+	if (result.Empty())
+	{
+		// the name consisted of dots and spaces only
+		result = "_";
+	}
+
 	// check if the filename starts with a reserved device name.
 	// although these names are reserved only on Windows we adjust them on posix too,
 	// in a case the directory is accessed from windows via samba.
-- 
2.43.0


From d52517d98fb983d85b9d0812b079b1afb9ac2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:17 +0000
Subject: [PATCH 50/61] fix: endless loop and wrong block sizes on malformed
 rar volumes

---
 daemon/postprocess/RarReader.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/daemon/postprocess/RarReader.cpp b/daemon/postprocess/RarReader.cpp
index 7433737..e7db355 100644
--- a/daemon/postprocess/RarReader.cpp
+++ b/daemon/postprocess/RarReader.cpp
@@ -238,6 +238,12 @@ bool RarVolume::ReadRar3Volume(DiskFile& file)
 			DecryptFree();
 		}
 
+		if ((int64)skip < 0)
+		{
+			// malformed block, the next block can't be located before the current one
+			return false;
+		}
+
 		if (!file.Seek(skip, DiskFile::soCur))
 		{
 			return false;
@@ -285,8 +291,7 @@ RarVolume::RarBlock RarVolume::ReadRar3Block(DiskFile& file)
 
 	if (block.flags & RAR3_BLOCK_ADDSIZE)
 	{
-		blocksize += (uint32)block.addsize;
-		block.trailsize = blocksize - sizeof(buf) - 4;
+		block.trailsize = (uint64)blocksize + block.addsize - sizeof(buf) - 4;
 	}
 
 #ifdef DEBUG
@@ -412,6 +417,12 @@ bool RarVolume::ReadRar5Volume(DiskFile& file)
 			DecryptFree();
 		}
 
+		if ((int64)skip < 0)
+		{
+			// malformed block, the next block can't be located before the current one
+			return false;
+		}
+
 		if (!file.Seek(skip, DiskFile::soCur))
 		{
 			return false;
-- 
2.43.0


From d58db711db98da6149bc8dde23d17e88acbd5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:17 +0000
Subject: [PATCH 51/61] fix: options added to the configuration were lost if
 the last line of the file was a comment without line ending

---
 daemon/extension/ScriptConfig.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/extension/ScriptConfig.cpp b/daemon/extension/ScriptConfig.cpp
index bd51af2..270be4b 100644
--- a/daemon/extension/ScriptConfig.cpp
+++ b/daemon/extension/ScriptConfig.cpp
@@ -131,6 +131,11 @@ bool ScriptConfig::SaveConfig(Options::OptEntries* optEntries)
 		else
 		{
 			infile.Print("%s", *buf);
+			if (!strchr(buf, '\n'))
+			{
+				// last line of the file without line ending
+				infile.Print("\n");
+			}
 		}
 	}
 
-- 
2.43.0


From a505693dbf681363107c76a7ea427da7ab641bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 52/61] fix: gaps of 2 GB and more between articles weren't
 filled

---
 daemon/nntp/ArticleWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 60dd782..923947d 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -420,7 +420,7 @@ void ArticleWriter::CompleteFileParts()
 				if (!g_Options->GetSkipWrite())
 				{
 					while (pa->GetSegmentOffset() > outfile.Position() && outfile.Position() > -1 &&
-						outfile.Write(buffer, std::min((int)(pa->GetSegmentOffset() - outfile.Position()), buffer.Size())));
+						outfile.Write(buffer, std::min(pa->GetSegmentOffset() - outfile.Position(), (int64)buffer.Size())));
 				}
 			}
 
-- 
2.43.0


From f3c3ef735010029434ff04f82825d5b201554214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 53/61] fix: articles of uuencoded files were written over each
 other if the article cache is used

---
 daemon/nntp/ArticleWriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 923947d..e003396 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -428,7 +428,10 @@ void ArticleWriter::CompleteFileParts()
 			{
 				if (!g_Options->GetSkipWrite())
 				{
-					outfile.Seek(pa->GetSegmentOffset());
+					if (directWrite)
+					{
+						outfile.Seek(pa->GetSegmentOffset());
+					}
 					outfile.Write(pa->GetSegmentContent(), pa->GetSegmentSize());
 				}
 				pa->DiscardSegment();
-- 
2.43.0


From 5052df34fb5ff104d2deaf072898f713ba522c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 54/61] fix: read outside of lists of option values if the
 value of ParCheck or FileNaming is invalid

---
 daemon/main/Options.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index cc86e3b..f71caed 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -768,7 +768,7 @@ void Options::InitOptions()
 
 	const char* ParCheckNames[] = { "auto", "always", "force", "manual" };
 	const int ParCheckValues[] = { pcAuto, pcAlways, pcForce, pcManual };
-	const int ParCheckCount = 6;
+	const int ParCheckCount = 4;
 	m_parCheck = (EParCheck)ParseEnumValue(OPTION_PARCHECK, ParCheckCount, ParCheckNames, ParCheckValues);
 
 	const char* ParScanNames[] = { "limited", "extended", "full", "dupe" };
@@ -783,7 +783,7 @@ void Options::InitOptions()
 
 	const char* FileNamingNames[] = { "auto", "article", "nzb" };
 	const int FileNamingValues[] = { nfAuto, nfArticle, nfNzb };
-	const int FileNamingCount = 4;
+	const int FileNamingCount = 3;
 	m_fileNaming = (EFileNaming)ParseEnumValue(OPTION_FILENAMING, FileNamingCount, FileNamingNames, FileNamingValues);
 
 	const char* HealthCheckNames[] = { "pause", "delete", "park", "none" };
-- 
2.43.0


From 84512f89b0007d0c5cde6d97d15ad582d986a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 55/61] fix: endless loop if configuration options refer to
 each other

---
 daemon/main/Options.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index f71caed..329391b 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -903,8 +903,10 @@ void Options::SetOption(const char* optname, const char* value)
 
 	optEntry->SetLineNo(m_configLine);
 
-	// expand variables
-	while (const char* dollar = strstr(curvalue, "${"))
+	// expand variables; the number of expansions is limited because the options may refer to each other
+	int expansions = 0;
+	const char* dollar;
+	while (expansions++ < 100 && (dollar = strstr(curvalue, "${")))
 	{
 		const char* end = strchr(dollar, '}');
 		if (end)
-- 
2.43.0


From 78e3209be183364dffe742f59087b7ac47270bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 56/61] fix: last character of a configuration file with only
 one line was cut

---
 daemon/main/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index 329391b..be62f1e 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -1431,7 +1431,7 @@ void Options::LoadConfigFile()
 	CharBuffer buf(bufLen);
 
 	int line = 0;
-	while (infile.ReadLine(buf, buf.Size() - 1))
+	while (infile.ReadLine(buf, buf.Size()))
 	{
 		m_configLine = ++line;
 
-- 
2.43.0


From 0e6b003371e4edbeead9e5fa7a685917ce2366e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 57/61] fix: empty option UMask gave all permissions to
 everyone

---
 daemon/main/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index be62f1e..6b6bffc 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -705,7 +705,7 @@ void Options::InitOptions()
 	m_urlConnections		= ParseIntValue(OPTION_URLCONNECTIONS, 10);
 	m_logBuffer				= ParseIntValue(OPTION_LOGBUFFER, 10);
 	m_rotateLog				= ParseIntValue(OPTION_ROTATELOG, 10);
-	m_umask					= ParseIntValue(OPTION_UMASK, 8);
+	m_umask					= Util::EmptyStr(GetOption(OPTION_UMASK)) ? 01000 : ParseIntValue(OPTION_UMASK, 8);
 	m_updateInterval		= ParseIntValue(OPTION_UPDATEINTERVAL, 10);
 	m_writeBuffer			= ParseIntValue(OPTION_WRITEBUFFER, 10);
 	m_nzbDirInterval		= ParseIntValue(OPTION_NZBDIRINTERVAL, 10);
-- 
2.43.0


From 4674136016f68fcf50ce107deb47bbbb4a381781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 58/61] fix: reads outside of the buffer on parsing of subjects
 of nzb-files

---
 daemon/queue/NzbFile.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index cd2f9e1..89c37c8 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -126,11 +126,11 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 	// strip the "yEnc (10/99)"-suffix
 	BString<1024> subject = fileInfo->GetSubject();
 	char* end = subject + strlen(subject) - 1;
-	if (*end == ')')
+	if (end > subject && *end == ')')
 	{
 		end--;
 		while (strchr("0123456789", *end) && end > subject) end--;
-		if (*end == '/')
+		if (end > subject && *end == '/')
 		{
 			end--;
 			while (strchr("0123456789", *end) && end > subject) end--;
@@ -149,7 +149,7 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 		if (start)
 		{
 			start++;
-			char* end = strchr(start + 1, '\"');
+			char* end = *start ? strchr(start + 1, '\"') : nullptr;
 			if (end)
 			{
 				int len = (int)(end - start);
@@ -188,6 +188,10 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 			{
 				tokens.emplace_back(start, len);
 			}
+			if (ch == '\0')
+			{
+				break;
+			}
 			start = p;
 			if (ch != '\"' || quot)
 			{
@@ -208,10 +212,6 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 				}
 			}
 		}
-		if (ch == '\0')
-		{
-			break;
-		}
 		p++;
 	}
 
-- 
2.43.0


From eed6863bfea16a646c5f22567d8f5076a1edbbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 59/61] fix: crash on short nzb-files with passwords

---
 daemon/queue/NzbFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index 89c37c8..1a3398a 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -419,10 +419,15 @@ void NzbFile::ReadPassword()
 	size = size < 4096 ? size : 4096;
 
 	// copy the file into the buffer.
-	file.Read(buf, size);
+	size = (int)file.Read(buf, size);
 
 	file.Close();
 
+	if (size <= 0)
+	{
+		return;
+	}
+
 	buf[size-1] = '\0';
 
 	char* metaPassword = strstr(buf, "<meta type=\"password\">");
-- 
2.43.0


From b95a0be0b8f04e5411896ed25ba36c550552f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 60/61] fix: huge segment numbers in nzb-files exhausted memory

---
 daemon/queue/NzbFile.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index 1a3398a..0f9d0c6 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -28,6 +28,9 @@
 #include "Util.h"
 #include "FileSystem.h"
 
+// Segments with greater numbers are considered malformed
+static const int MAX_PART_NUMBER = 1000000;
+
 NzbFile::NzbFile(const char* fileName, const char* category) :
 	m_fileName(fileName)
 {
@@ -703,6 +706,12 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 			}
 		}
 
+		if (partNumber > MAX_PART_NUMBER)
+		{
+			m_nzbInfo->AddMessage(Message::mkWarning, "Malformed nzb-file, invalid segment number");
+			return;
+		}
+
 		if (partNumber > 0)
 		{
 			// new segment, add it!
-- 
2.43.0


From cbab46fe5d4be0f12df487287dec22c120969ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 61/61] fix: crash on malformed nzb-files with nested elements
 or without message ids

---
 daemon/queue/NzbFile.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index 0f9d0c6..90d280b 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -70,14 +70,15 @@ void NzbFile::AddFileInfo(std::unique_ptr<FileInfo> fileInfo)
 	int uncountedArticles = 0;
 	int missedArticles = 0;
 	int totalArticles = (int)fileInfo->GetArticles()->size();
-	int i = 0;
-	for (ArticleList::iterator it = fileInfo->GetArticles()->begin(); it != fileInfo->GetArticles()->end(); )
+	for (std::unique_ptr<ArticleInfo>& article : *fileInfo->GetArticles())
 	{
-		ArticleInfo* article = (*it).get();
+		if (article && Util::EmptyStr(article->GetMessageId()))
+		{
+			// malformed segment element without message id
+			article.reset();
+		}
 		if (!article)
 		{
-			fileInfo->GetArticles()->erase(it);
-			it = fileInfo->GetArticles()->begin() + i;
 			missedArticles++;
 			if (oneSize > 0)
 			{
@@ -95,11 +96,12 @@ void NzbFile::AddFileInfo(std::unique_ptr<FileInfo> fileInfo)
 			{
 				oneSize = article->GetSize();
 			}
-			it++;
-			i++;
 		}
 	}
 
+	fileInfo->GetArticles()->erase(std::remove(fileInfo->GetArticles()->begin(),
+		fileInfo->GetArticles()->end(), nullptr), fileInfo->GetArticles()->end());
+
 	if (fileInfo->GetArticles()->empty())
 	{
 		return;
@@ -652,6 +654,7 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 
 	if (!strcmp("file", name))
 	{
+		m_article = nullptr;
 		m_fileInfo = std::make_unique<FileInfo>();
 		m_fileInfo->SetFilename(m_fileName);
 
@@ -737,6 +740,12 @@ void NzbFile::Parse_EndElement(const char *name)
 {
 	if (!strcmp("file", name))
 	{
+		if (!m_fileInfo)
+		{
+			// error: bad nzb-file
+			return;
+		}
+
 		// Close the file element, add the new file to file-list
 		AddFileInfo(std::move(m_fileInfo));
 		m_article = nullptr;
-- 
2.43.0

