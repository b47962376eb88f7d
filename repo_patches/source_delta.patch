From a84c118e74274d957fa4b5815dbf7294b3c57823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 01/45] fix: repair dynamic backlog and collection level when
 their features are enabled

With history enabled and no dynamic backlog the buffer had to grow without
an allowed pool and hit an assertion; a collection level of zero divided by
zero in the garbage collector.
---
 src/core/buffer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..8b9b679 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,16 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.history && cfg.dynBacklog < 1) {
+		cfg.dynBacklog = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to 1");
+	}
+
+	if (cfg.gc && cfg.gcLevel < 1) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.gcLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From fd484349d3cb114346bcc6852191f8f4c4932d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 02/45] fix: send only the rest of a message after a partial
 write

---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..af3f8c9 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -368,7 +368,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From 24dc2ca6c8ef3bfcf630cbbe8dbb19c95966277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 03/45] fix: do not abort if a second sender fails while
 disconnected

The GPS thread may try to send after sender and receiver have both noticed
the failure and before there is a new connection.
---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index af3f8c9..dcaf660 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -308,8 +308,8 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 			transState = TRANSIT_NONE;
 		}
 	} else if (connState != CONN_STATE_SHUTDOWN &&
+		transState != TRANSIT_NONE &&
 		transState != (enum TRANSIT_STATE)by) {
-		assert(transState != TRANSIT_NONE);
 		/* we have not been reconnected yet, but the follower has seen the
 		 * failure -> close the stale socket */
 		SOCK_close(*mysock);
-- 
2.43.0


From e3a4867008807c8eb1aa74b7869916979f3e8115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 04/45] fix: close the stale socket of a failed connection at
 shutdown

---
 src/core/network.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/network.c b/src/core/network.c
index dcaf660..e882acc 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -180,6 +180,14 @@ static void cleanupMain()
 			break;
 		}
 	}
+	/* one side has not seen the last failure: close its stale socket, too */
+	if (transState == TRANSIT_SEND) {
+		SOCK_close(sendsock);
+		sendsock = SOCK_INVALID;
+	} else if (transState == TRANSIT_RECV) {
+		SOCK_close(recvsock);
+		recvsock = SOCK_INVALID;
+	}
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From ce6837b26930152a9eee341f971973d644b6f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 05/45] fix: report the end of a connection to the receiver in
 any case

If the sender had noticed the failure first and the connection had been
reestablished, the receiver silently got data of the new connection and
appended it to an incomplete packet of the old one.
---
 src/core/network.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index e882acc..892f37f 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -416,17 +416,18 @@ bool NET_send(const void * buf, size_t len)
  */
 ssize_t NET_receive(uint8_t * buf, size_t len)
 {
-	do {
-		ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
-		if (rc > 0) {
-			stats.bytesReceived += rc;
-			return rc;
-		}
+	ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
+	if (rc > 0) {
+		stats.bytesReceived += rc;
+		return rc;
+	}
 #ifdef DEBUG
-		LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
-			rc == 0 ? "Connection lost" : strerror(errno));
+	LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
+		rc == 0 ? "Connection lost" : strerror(errno));
 #endif
-	} while (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY);
+	/* even if there is a new connection already: the caller must not take
+	 * its data for the continuation of the old one */
+	emitDisconnect(EMIT_BY_RECV);
 	return 0;
 }
 
-- 
2.43.0


From 3cf524b6e9bcad90e9d1a4b32b2ffae868fb9878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 06/45] fix: check the talkback packet type before indexing the
 processor table

---
 src/core/tb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/tb.c b/src/core/tb.c
index c3260e5..698f7cf 100644
--- a/src/core/tb.c
+++ b/src/core/tb.c
@@ -160,9 +160,10 @@ static void mainloop()
 static void processPacket(const struct TB_Packet * packet)
 {
 	static const uint_fast32_t n_processors = ARRAY_SIZE(processors);
-	const struct PacketProcessor * processor = &processors[packet->type];
+	const struct PacketProcessor * processor =
+		packet->type < n_processors ? &processors[packet->type] : NULL;
 
-	if (packet->type >= n_processors || !processor->fn) {
+	if (!processor || !processor->fn) {
 		/* packet type unknown */
 		LOG_logf(LOG_LEVEL_WARN, PFX, "Unknown packet type (type=%"
 			PRIuFAST16 ", len=%" PRIuFAST16 ")", packet->type, packet->len);
-- 
2.43.0


From 98fd428c3e6e2e2018751cfe03bbc0418df94ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 07/45] fix: end the upgrade process when the upgrade did not
 restart the daemon

---
 src/radarcape/tb-misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..39caeb0 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -6,6 +6,7 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "tb-misc.h"
 #include "fpga.h"
 #include "util/proc.h"
@@ -70,6 +71,9 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+
+	/* child: never return into the daemon's main loop */
+	_Exit(EXIT_SUCCESS);
 }
 #endif
 
-- 
2.43.0


From d6a2790f22b0fe83598c61cd20787f4178f5669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 08/45] fix: do not accept BOM as the type of a GPS receiver
 frame

---
 src/trimble/trimble_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 5ed506f..6060ee1 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -109,9 +109,9 @@ decode_frame:
 		/* decode type */
 		if (unlikely(!next(buf)))
 			return false;
-		if (unlikely(*buf == EOM)) {
-			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got unescaped EOM in "
-				"frame, resynchronizing");
+		if (unlikely(*buf == BOM || *buf == EOM)) {
+			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got BOM or EOM instead "
+				"of frame type, resynchronizing");
 			goto synchronize;
 		}
 		size_t len = bufLen - 1;
-- 
2.43.0


From 39fb53d77f212b6d6ab14f950ed5d8429709e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 09/45] fix: look for the equal sign of an option in its line
 only

---
 src/util/cfgfile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2d60544..fd11413 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -606,11 +606,11 @@ static const struct CFG_Option * getOption(const char * section,
  */
 static bool parseOption()
 {
-	/* split option on '='-sign */
-	const char * e = memchr(bufferInput, '=', bufferSize);
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
 		n = bufferInput + bufferSize - 1;
+	/* split option on '='-sign */
+	const char * e = memchr(bufferInput, '=', n - bufferInput);
 
 	const char * key = bufferInput;
 
@@ -619,7 +619,7 @@ static bool parseOption()
 	bufferInput = n + 1;
 
 	/* sanity check */
-	if (unlikely(n < e)) {
+	if (unlikely(e == NULL)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
 		return false;
-- 
2.43.0


From 2cfa27473828117eba2fcb4c70fccda9ae03e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 10/45] fix: handle empty configuration values in lines ending
 with CRLF

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index fd11413..c682427 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -639,7 +639,7 @@ static bool parseOption()
 		size_t valLen = n - value;
 
 		/* eliminate \r at the end of the value */
-		if (value[valLen - 1] == '\r')
+		if (valLen && value[valLen - 1] == '\r')
 			--valLen;
 
 		/* get option by section and key name */
-- 
2.43.0


From 49b567a6128f9de80b9f46ce0e35d1694fe34711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 11/45] fix: parse a last line without newline completely

---
 src/util/cfgfile.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index c682427..d7c1f53 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -356,6 +356,17 @@ static void err(enum LOG_LEVEL logLevel, const char * fmt, ...) {
 		fileName, bufferLine, buf);
 }
 
+/** Advance the parser to the line after the current one.
+ * @param n end of the current line: its newline or the end of the file
+ */
+static void nextLine(const char * n)
+{
+	if (n != bufferInput + bufferSize) /* consume newline */
+		++n;
+	bufferSize -= n - bufferInput;
+	bufferInput = n;
+}
+
 /** Parse a section name.
  * @return section state
  */
@@ -366,7 +377,7 @@ static enum SECTION_STATE parseSection()
 	/* get next newline or end-of-file */
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 
 	/* sanity checks */
 	if (!c || n < c) {
@@ -383,8 +394,7 @@ static enum SECTION_STATE parseSection()
 	const char * const buf = bufferInput + 1;
 
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	nextLine(n);
 	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
@@ -411,10 +421,9 @@ static void skipComment()
 	/* search for next newline */
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	nextLine(n);
 	++bufferLine;
 }
 
@@ -608,15 +617,14 @@ static bool parseOption()
 {
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 	/* split option on '='-sign */
 	const char * e = memchr(bufferInput, '=', n - bufferInput);
 
 	const char * key = bufferInput;
 
 	/* advance buffer */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	nextLine(n);
 
 	/* sanity check */
 	if (unlikely(e == NULL)) {
-- 
2.43.0


From 5f220c76631e296338754be6818de50c1ae8ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 12/45] fix: reject configuration values which are not a number
 in range

---
 src/util/cfgfile.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index d7c1f53..31d6a3c 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -444,7 +444,16 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 	buf[valLen] = '\0';
 
 	char * end;
+	errno = 0;
 	unsigned long int n = strtoul(buf, &end, 0);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
+	if (*buf == '-' || errno == ERANGE || n > UINT32_MAX) {
+		err(LOG_LEVEL_ERROR, "Number out of range");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = n;
@@ -534,6 +543,10 @@ static inline bool parseDouble(const char * value, size_t valLen, double * ret)
 
 	char * end;
 	double d = strtod(buf, &end);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = d;
-- 
2.43.0


From 6c9a3c6af4c897500aa6d4736c97b93f41fb776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 13/45] fix: fail loading a configuration file if a value
 cannot be parsed

---
 src/util/cfgfile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 31d6a3c..b48e3de 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -624,7 +624,7 @@ static const struct CFG_Option * getOption(const char * section,
 }
 
 /** Parse an option line.
- * @return true if parsing succeeded
+ * @return true if parsing can go on, false if parsing the file failed
  */
 static bool parseOption()
 {
@@ -643,7 +643,7 @@ static bool parseOption()
 	if (unlikely(e == NULL)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
-		return false;
+		return true;
 	}
 
 	if (sectionState == SECTION_STATE_VALID) {
@@ -721,7 +721,8 @@ static bool readCfg()
 			if (sectionState == SECTION_STATE_NOSECTION && optWarnUnknownOption)
 				LOG_logf(LOG_LEVEL_WARN, PFX, "Line %" PRIuFAST32 ": "
 					"Unexpected option outside any section", bufferLine);
-			parseOption();
+			if (!parseOption())
+				return false;
 		}
 	}
 	return true;
-- 
2.43.0


From cf0a6ca58794a01029a5d9e7ea3baf4b6784ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 14/45] fix: always terminate string options

---
 src/util/cfgfile.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index b48e3de..348ed07 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -728,6 +728,17 @@ static bool readCfg()
 	return true;
 }
 
+/** Assign a string to an option, truncate it if it does not fit.
+ * @param opt option to be assigned
+ * @param str string
+ */
+static void assignString(const struct CFG_Option * opt, const char * str)
+{
+	char * var = opt->var;
+	strncpy(var, str, opt->maxlen - 1);
+	var[opt->maxlen - 1] = '\0';
+}
+
 /** Assign option from its default value.
  * @param opt option to be assigned
  */
@@ -746,7 +757,7 @@ static void assignOptionFromDefault(const struct CFG_Option * opt)
 		break;
 	case CFG_VALUE_TYPE_STRING:
 		if (opt->def.string)
-			strncpy(opt->var, opt->def.string, opt->maxlen);
+			assignString(opt, opt->def.string);
 		else
 			((char*)opt->var)[0] = '\0';
 		break;
@@ -839,7 +850,7 @@ void CFG_setString(const char * section, const char * key, const char * value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_STRING);
-		strncpy(opt->var, value, opt->maxlen);
+		assignString(opt, value);
 	}
 }
 
-- 
2.43.0


From b56daad5255d270f90160c0278b9bee457d70769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 15/45] fix: save floating point options with full precision

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 348ed07..8c81b61 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -935,7 +935,7 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 				return false;
 			break;
 		case CFG_VALUE_TYPE_DOUBLE:
-			if (fprintf(file, "%f\n", val->dbl) < 0)
+			if (fprintf(file, "%.17g\n", val->dbl) < 0)
 				return false;
 			break;
 		}
-- 
2.43.0


From 3f950799614379fb3c4f984d714f50ece0ecb043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 16/45] fix: report each failure of writing the configuration

---
 src/util/cfgfile.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 8c81b61..00f72e4 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -909,12 +909,14 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 		const union CFG_Value * val = opt->var;
 
 		if (opt->given && !*opt->given && opt->defaultEmpty) {
-			fprintf(file, "; %s = \n", opt->name);
+			if (fprintf(file, "; %s = \n", opt->name) < 0)
+				return false;
 			continue;
 		}
 
 		/* write option name */
-		fprintf(file, "%s = ", opt->name);
+		if (fprintf(file, "%s = ", opt->name) < 0)
+			return false;
 
 		/* write option value, depending on its type */
 		switch (opt->type) {
@@ -1003,7 +1005,8 @@ bool CFG_write(const char * filename)
 
 	bool rc = writeSections(file);
 
-	fclose(file);
+	if (fclose(file) != 0)
+		rc = false;
 
 	return rc;
 }
@@ -1025,7 +1028,8 @@ bool CFG_writeSection(const char * filename, const struct CFG_Section * section)
 	bool rc = fprintf(file, "[%s]\n", section->name) >= 0 &&
 		writeOptions(file, section);
 
-	fclose(file);
+	if (fclose(file) != 0)
+		rc = false;
 
 	return rc;
 }
-- 
2.43.0


From 2296fe6cbf420e7773ca6cf1489e065ea78df9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 17/45] fix: exit with failure if the configuration could not
 be saved

---
 src/radarcape/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index f166c91..345d533 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -145,10 +145,10 @@ int main(int argc, char * argv[])
 	if (savefile) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
 			savefile);
-		CFG_write(savefile);
+		bool saved = CFG_write(savefile);
 		COMP_unregisterAll();
 		CFG_unregisterAll();
-		return EXIT_SUCCESS;
+		return saved ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
 	if (!SERIAL_ETH_getSerial(NULL))
-- 
2.43.0


From f8327fd1c67300bb54038e88c496ab0baec58b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 18/45] set the tail when prepending to an empty singly linked
 list

---
 src/util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/list.h b/src/util/list.h
index a1bd626..10008c8 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -758,7 +758,7 @@ static inline void LIST_concatenateUnshiftS(struct LIST_ListS * __restrict dst,
 	if (likely(!LIST_emptyS(src))) {
 		src->tail->next = dst->head;
 		if (LIST_emptyS(dst))
-			dst->tail = src->head;
+			dst->tail = src->tail;
 		dst->head = src->head;
 
 		LIST_initS(src);
-- 
2.43.0


From 3eda43b544e66d312788ea8de6221d7e1ee8b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 19/45] count a tainted list before separating it eagerly

---
 src/util/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/list.h b/src/util/list.h
index 10008c8..b14e892 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -494,6 +494,7 @@ static inline void LIST_separateFromDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateFromFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateFromDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
@@ -539,6 +540,7 @@ static inline void LIST_separateUntilDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateUntilFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateUntilDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
-- 
2.43.0


From 35e29ac220260671f92d583cb6893879a448ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 20/45] check the directory path before listing it

---
 src/util/cfgfile.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 00f72e4..080fac5 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -206,6 +206,11 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	 * and sort them according to their number
 	 */
 	struct dirent ** namelist;
+	size_t len = strlen(path);
+	if (len > PATH_MAX - 1) {
+		LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s' too long", path);
+		return false;
+	}
 	int s = scandir(path, &namelist, &filterDirectory, &compareDirectory);
 	if (s < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not traverse path '%s'", path);
@@ -214,11 +219,6 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 	/* prepare filename */
 	char filename[PATH_MAX];
-	size_t len = strlen(path);
-	if (len > PATH_MAX - 1) {
-		LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s' too long", path);
-		return false;
-	}
 	strncpy(filename, path, sizeof filename);
 	filename[len] = '/';
 	char * foffset = filename + len + 1;
-- 
2.43.0


From 7c39dea2bd3c9d44a5cf910b94f95417e496e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 21/45] leave room for the end of the path of a configuration
 file

---
 src/util/cfgfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 080fac5..b4b1140 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -231,7 +231,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
 		size_t flen = strlen(namelist[n]->d_name);
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
@@ -301,7 +301,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen < 5 || strcmp(fname + flen - 5, ".conf"))
 			continue;
 
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
-- 
2.43.0


From bbee5aa283f72684f2751bb118594d58ffc23d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 22/45] report failing files of a configuration directory

---
 src/util/cfgfile.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index b4b1140..e7597d0 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -225,7 +225,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	int n;
 	for (n = 0; n < s; ++n) {
 		/* build filename */
@@ -234,6 +234,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -242,10 +243,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	/* free filenames */
@@ -291,7 +294,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool ret = true;
 	struct dirent * ent;
 	while ((ent = readdir(dir)) != NULL) {
 		/* build filename */
@@ -304,6 +307,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
+			ret = false;
 			if (stopOnFirstError)
 				goto ret;
 			continue;
@@ -312,10 +316,12 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			ret = false;
+			if (stopOnFirstError)
+				goto ret;
+		}
 	}
-	ret = true;
 
 ret:
 	closedir(dir);
-- 
2.43.0


From ca6284b49ececd5c31d862c597b46bf48b737ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 23/45] fix the configuration after a partially loaded file,
 too

---
 src/util/cfgfile.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index e7597d0..5658a9a 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -145,9 +145,8 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
 
 	MMAP_close(map);
 
-	/* fix configuration */
-	if (success)
-		fix();
+	/* fix configuration: on failure, values might have been assigned already */
+	fix();
 
 	return success;
 }
-- 
2.43.0


From f17a374f8699d51aece9e43879c80be6b2e3dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 24/45] stop if privileges cannot be dropped

---
 src/util/util.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/util.c b/src/util/util.c
index 17e9395..62424fb 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -54,9 +54,8 @@ void UTIL_dropPrivileges()
 	if (chdir("/tmp")) {} /* silence gcc */
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Dropping privileges to uid %u and "
 		"gid %u\n", (unsigned)u_nobody, (unsigned)g_nobody);
-	setgroups(0, NULL);
-	if (setgid(g_nobody)) {}
-	if (setuid(u_nobody)) {}
+	if (setgroups(0, NULL) || setgid(g_nobody) || setuid(u_nobody))
+		LOG_errno(LOG_LEVEL_EMERG, PFX, "Could not drop privileges");
 #endif
 }
 
-- 
2.43.0


From 73aca64c4829d1e235d5b53e823928b8226a33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:46 +0000
Subject: [PATCH 25/45] reject a configured position which is not a number

---
 src/dump1090/position.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dump1090/position.c b/src/dump1090/position.c
index 1e7bedd..c858bf0 100644
--- a/src/dump1090/position.c
+++ b/src/dump1090/position.c
@@ -3,6 +3,7 @@
 #ifdef HAVE_CONFIG_H
 #include <config.h>
 #endif
+#include <math.h>
 #include "core/gps.h"
 #include "util/cfgfile.h"
 #include "util/component.h"
@@ -82,13 +83,16 @@ static bool checkCfg(const struct CFG_Section * sect)
 			LOG_logf(LOG_LEVEL_EMERG, PFX, "%s is not configured", opt->name);
 	}
 
-	if (latitude < -90 || latitude > 90)
+	if (!(latitude >= -90 && latitude <= 90))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Latitude must be given within +/-90 "
 			"degrees");
 
-	if (longitude < -180 || longitude > 180)
+	if (!(longitude >= -180 && longitude <= 180))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Longitude must be given within +/-180 "
 			"degrees");
 
+	if (!isfinite(altitude))
+		LOG_log(LOG_LEVEL_EMERG, PFX, "Altitude must be a finite number");
+
 	return true;
 }
-- 
2.43.0


From 8183573625068619ab9c7c83cff1c3073dcfe194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 26/45] close the socket after reading the hardware address

---
 src/util/serial_eth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/serial_eth.c b/src/util/serial_eth.c
index ad8006c..58448dc 100644
--- a/src/util/serial_eth.c
+++ b/src/util/serial_eth.c
@@ -75,6 +75,8 @@ static bool getMacBySocket(const char * dev, uint8_t mac[IFHWADDRLEN])
 
 	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
 
+	NOC_call(close, sock);
+
 	if (ret < 0) /* no such device */
 		return false;
 
-- 
2.43.0


From 2ee0bad5b32c0db255ece5dd8b58c6bb40eb8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 27/45] refuse to start without a serial number

---
 src/radarcape/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index 345d533..6fab8d7 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -151,7 +151,7 @@ int main(int argc, char * argv[])
 		return saved ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
-	if (!SERIAL_ETH_getSerial(NULL))
+	if (SERIAL_ETH_getSerial(NULL) != SERIAL_RETURN_SUCCESS)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 
 #ifdef STANDALONE
-- 
2.43.0


From 1f96d37c29033daa0ae7cc7c69bebcbadcb71973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 28/45] fix: refuse to work without serial number in radarcape
 library

---
 src/radarcape/lib/opensky.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index f048306..d2cfc56 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -83,7 +83,7 @@ void init()
 
 void configure()
 {
-	if (!SERIAL_ETH_getSerial(NULL)) {
+	if (SERIAL_ETH_getSerial(NULL) == SERIAL_RETURN_FAIL_PERM) {
 		LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 	} else {
 		configured = true;
-- 
2.43.0


From 908b2e02519cba2f1d99a6b90f980370aeb225ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 29/45] fix: ignore serial number response if there is a serial
 number already

---
 src/dump1090/req-serial.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index be27808..393510b 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -149,9 +149,11 @@ static bool sendSerialRequest()
 static void serialResponse(const uint8_t * payload)
 {
 	pthread_mutex_lock(&serialMutex);
-	serialNumber = ENDEC_tou32(payload);
-	hasSerial = true;
-	pthread_cond_broadcast(&serialReqCond);
+	if (!hasSerial) {
+		serialNumber = ENDEC_tou32(payload);
+		hasSerial = true;
+		pthread_cond_broadcast(&serialReqCond);
+	}
 	pthread_mutex_unlock(&serialMutex);
 }
 
-- 
2.43.0


From 831ff688807c962a7fb14237210b48a47233bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 30/45] fix: save serial number which arrived after the request
 had been given up

---
 src/dump1090/req-serial.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index 393510b..5830578 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -38,6 +38,8 @@ static pthread_cond_t serialReqCond = PTHREAD_COND_INITIALIZER;
 static bool hasSerial;
 /** Configuration: serial number */
 static uint32_t serialNumber;
+/** Serial number was received from OpenSky, but is not saved yet */
+static bool unsaved;
 
 /** Configuration Descriptor */
 static const struct CFG_Section cfgDesc =
@@ -119,12 +121,14 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
 			(int32_t)serialNumber);
-
+	}
+	if (unsaved) {
 		/* got a new serial number -> save it */
 		if (!CFG_writeSection(LOCALSTATEDIR "/conf.d/05-serial.conf", &cfgDesc)) {
 			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
 				"refusing to work");
 		}
+		unsaved = false;
 	}
 	*serial = serialNumber;
 cleanup:
@@ -152,6 +156,7 @@ static void serialResponse(const uint8_t * payload)
 	if (!hasSerial) {
 		serialNumber = ENDEC_tou32(payload);
 		hasSerial = true;
+		unsaved = true;
 		pthread_cond_broadcast(&serialReqCond);
 	}
 	pthread_mutex_unlock(&serialMutex);
-- 
2.43.0


From f2885725bef0f93fd887dde1498b0085e45c225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 31/45] fix: terminate description of over-long command lines

---
 src/util/proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..a7e20e7 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -34,7 +34,7 @@ static void printCmdLine(char * const argv[])
 		ptr[-1] = ' ';
 		ptr = memccpy(ptr, *arg, '\0', end - ptr);
 	}
-	if (*arg && (!ptr || ptr == end))
+	if (!ptr || (*arg && ptr == end))
 		strcpy(&end[-4], "...");
 
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
-- 
2.43.0


From 1c3f2da4e531e71c3ba84b269f4e1d739ecb3bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:44 +0000
Subject: [PATCH 32/45] fix: treat failing fork and waitpid as failed execution

---
 src/util/proc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index a7e20e7..eab2407 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -8,6 +8,7 @@
 #include <stdbool.h>
 #include <stdlib.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <string.h>
 #include <sys/stat.h>
 #include <sys/wait.h>
@@ -134,8 +135,15 @@ bool PROC_execAndReturn(char * const argv[])
 	pid_t pid = fork();
 	if (!pid)
 		PROC_execAndFinalize(argv);
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return false;
+	}
 
 	int status;
-	waitpid(pid, &status, 0);
+	while (waitpid(pid, &status, 0) == -1) {
+		if (errno != EINTR)
+			return false;
+	}
 	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
-- 
2.43.0


From 84dd92ac84566ff8bc259af49bb876c41a673a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 33/45] fix: reap intermediate child of detached processes

---
 src/util/proc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index eab2407..975fa5d 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -113,8 +113,16 @@ static inline void escape_cgroup()
  */
 void PROC_forkAndExec(char * const argv[])
 {
-	if (!PROC_fork())
-		return; /* parent */
+	pid_t pid = fork();
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return;
+	} else if (pid) { /* parent */
+		/* the child ends as soon as it forked itself */
+		while (waitpid(pid, NULL, 0) == -1 && errno == EINTR)
+			;
+		return;
+	}
 	/* daemonize and chdir to root */
 	if (daemon(0, 1) < 0) {
 		_Exit(EXIT_FAILURE);
-- 
2.43.0


From c7cf8b2a98b32d73ebc4d5114d1ed40366571fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 34/45] fix: wait for CONF_DONE after programming the FPGA

---
 src/radarcape/fpga.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f677ea1..6839275 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -212,7 +212,7 @@ static bool program()
 			continue;
 
 		uint32_t spin = TIMEOUT;
-		while (GPIO_read(fpga->confd) && spin--)
+		while (!GPIO_read(fpga->confd) && spin--)
 			usleep(50);
 		if (!GPIO_read(fpga->confd)) {
 			LOG_log(LOG_LEVEL_WARN, PFX, "could not program: CONF_DONE = 0"
-- 
2.43.0


From 8799bb161c999bfeaeb8cc450fdd103549d2586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:27 +0000
Subject: [PATCH 35/45] fix: unmap FPGA image if programming failed

---
 src/radarcape/fpga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 6839275..8d3f0be 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -228,6 +228,7 @@ static bool program()
 	if (try == retries) {
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "could not program fpga after %" PRIu32
 			" attempts", retries);
+		munmap(rfd, st.st_size);
 		return false;
 	}
 	return true;
-- 
2.43.0


From c3022b94324e6e7b74fbc1ac53fd3f862d7daf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 36/45] fix: check length of FPGA image path

---
 src/radarcape/fpga.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 8d3f0be..5309ebc 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -13,6 +13,7 @@
 #include <stdint.h>
 #include <stdbool.h>
 #include <limits.h>
+#include <stdio.h>
 #include <string.h>
 #include <assert.h>
 #include "gpio.h"
@@ -168,10 +169,11 @@ static bool program()
 	struct stat st;
 	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0) {
 		strncpy(file, cfgFilename, sizeof file);
-	} else {
-		strncpy(file, FWDIR, sizeof file);
-		strncat(file, "/", strlen(file) - sizeof file);
-		strncat(file, cfgFilename, strlen(file) - sizeof file);
+	} else if (snprintf(file, sizeof file, "%s/%s", FWDIR, cfgFilename)
+	    >= (int)sizeof file) {
+		LOG_logf(LOG_LEVEL_ERROR, PFX, "filename '%s' is too long",
+			cfgFilename);
+		return false;
 	}
 
 	/* open input file */
-- 
2.43.0


From 0fe45974fa82cd139519cdb2e94de942e11d34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 37/45] fix: do not join a thread twice if stopping it was
 deferred

---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 7094aba..8de55da 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -413,8 +413,9 @@ static bool stopThreaded(const struct ComponentLink * ci, bool deferred)
 					"joined", ci->comp->description);
 			return false;
 		}
-#endif
+#else
 		pthread_join(ci->thread, NULL);
+#endif
 	} else {
 		pthread_cancel(ci->thread);
 #if HAVE_PTHREAD_TIMEDJOIN_NP
-- 
2.43.0


From c145a9e5917ced750d3a33b3ba4154dd0da72cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 38/45] fix: bound list of components which could not be
 stopped

---
 src/util/component.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 8de55da..e477b88 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -343,10 +343,12 @@ static void stopUntil(struct ComponentLink * end)
 				size_t len = MIN(strlen(ci->comp->description), bend - buf);
 				memcpy(buf, ci->comp->description, len);
 				buf += len;
+				if (buf == bend)
+					break;
 				*(buf++) = ' ';
 			}
 		}
-		if (buf != buffer)
+		if (buf != buffer && buf != bend)
 			buf[-1] = 0;
 		else
 			*buf = 0;
-- 
2.43.0


From 5937c9012d47c6c5486ae06a2abbb4285603ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 39/45] fix: do not use socket which could not be created

---
 src/util/net_common-posix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 69ab469..2feb3ee 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -126,8 +126,10 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		/* create socket */
 		sock = SOCK_socket(host->ai_family, host->ai_socktype | SOCK_CLOEXEC,
 			host->ai_protocol);
-		if (sock == SOCK_INVALID)
+		if (sock == SOCK_INVALID) {
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
+			continue;
+		}
 
 		/* connect socket */
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
-- 
2.43.0


From defc0ace70b5873c9cfde9cfec5c86ee921d1658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 40/45] fix: close socket if connecting is cancelled

---
 src/util/net_common-posix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 2feb3ee..0d788ee 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -23,6 +23,8 @@ struct Hosts {
 	struct addrinfo * hosts;
 	/** Pointers into hosts, in random order */
 	struct addrinfo ** shuffled;
+	/** Socket which is not connected yet */
+	sock_t sock;
 };
 
 /** Cleanup Routine
@@ -33,6 +35,8 @@ static void cleanup(struct Hosts * hosts)
 	if (hosts) {
 		if (hosts->hosts)
 			freeaddrinfo(hosts->hosts);
+		if (hosts->sock != SOCK_INVALID)
+			SOCK_close(hosts->sock);
 		free(hosts->shuffled);
 		free(hosts);
 	}
@@ -56,6 +60,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		LOG_errno(LOG_LEVEL_EMERG, prefix, "malloc failed");
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
+	hosts->sock = SOCK_INVALID;
 
 	hints.ai_family = AF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
@@ -132,11 +137,14 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		}
 
 		/* connect socket */
+		hosts->sock = sock;
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
 		if (rc == SOCK_ERROR) {
 			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
-			SOCK_close(sock);
+			NOC_call(SOCK_close, sock);
+			hosts->sock = SOCK_INVALID;
 		} else {
+			hosts->sock = SOCK_INVALID;
 			LOG_logf(LOG_LEVEL_INFO, prefix, "connected to '%s'", hostName);
 			break;
 		}
-- 
2.43.0


From 90018ca33a91f7fe14d342ede2107b28bc212469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 41/45] fix: pass flags for opening UART as flags

---
 src/radarcape/uart.c             | 2 +-
 src/trimble/trimble_input_uart.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 75b2b74..7b40940 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -74,7 +74,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index 60044d4..feb36b8 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From b98e94fd0ed07f19706cff64d16b9ba62add61fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 42/45] fix: accept user names of the maximum length in the
 feeder's configuration

---
 src/dump1090/dump1090.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump1090/dump1090.c b/src/dump1090/dump1090.c
index e48ef3c..5fc3b7a 100644
--- a/src/dump1090/dump1090.c
+++ b/src/dump1090/dump1090.c
@@ -63,7 +63,7 @@ static struct CFG_Section cfgDesc =
 			.name = "Username",
 			.type = CFG_VALUE_TYPE_STRING,
 			.var = &username,
-			.maxlen = OPENSKY_MAX_USERNAME,
+			.maxlen = sizeof(username),
 		}
 	}
 };
-- 
2.43.0


From 9a8b67e6dff1482714162da12d83c684d61a9861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:20 +0000
Subject: [PATCH 43/45] fix: quit if a configuration directory of the feeder
 cannot be accessed for any reason

---
 src/dump1090/dump1090.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump1090/dump1090.c b/src/dump1090/dump1090.c
index 5fc3b7a..0dd48fe 100644
--- a/src/dump1090/dump1090.c
+++ b/src/dump1090/dump1090.c
@@ -88,7 +88,7 @@ static void ensureDir(const char * path)
 				LOG_errno(LOG_LEVEL_EMERG, PFX,
 					"Could not create configuration directory '%s'", path);
 			}
-		} else if (errno == EACCES) {
+		} else {
 			LOG_errno(LOG_LEVEL_EMERG, PFX,
 				"Could not access configuration directory '%s'", path);
 		}
-- 
2.43.0


From 0a4f273da7b5b98ae6ed4da2988e81e6084cb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:29 +0000
Subject: [PATCH 44/45] fix: statistics: count frames put back for the largest
 queue

---
 src/core/buffer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index 8b9b679..36fabaa 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -490,6 +490,8 @@ void BUF_putFrame(const struct OPENSKY_RawFrame * frame)
 
 	pthread_mutex_lock(&mutex);
 	LIST_unshift(&queue, LIST_link(currentFrame, list));
+	if (unlikely(LIST_length(&queue) > stats.maxQueueSize))
+		stats.maxQueueSize = LIST_length(&queue);
 	currentFrame = NULL;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From 018edbf6f638be092c598691ac1b9033f961c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:52 +0000
Subject: [PATCH 45/45] fix: fill the whole frame of the simulated receiver

---
 src/radarcape/dummy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/dummy.c b/src/radarcape/dummy.c
index 4761e89..ffa0b91 100644
--- a/src/radarcape/dummy.c
+++ b/src/radarcape/dummy.c
@@ -86,7 +86,7 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
 		mbuf[0] = (random() & 0xff) - 0x7f;
 		mbuf[1] = 0x8a;
 		uint_fast32_t i;
-		for (i = 2; i < 14; ++i)
+		for (i = 2; i < sizeof mbuf; ++i)
 			mbuf[i] = random() & 0xff;
 	}
 	ptr += BEAST_encode(ptr, mbuf, 15);
-- 
2.43.0

