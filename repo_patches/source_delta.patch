From ab86f8baaa45962112ec2d79eae8c1e2c5d603a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 01/69] fix: encode a 255 byte packet with the one byte length
 its size was computed for

---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 86c1e90..ff37f69 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -59,7 +59,7 @@ int MQTTSNPacket_len(int length)
 /**
  * Encodes the MQTT-SN message length
  * @param buf the buffer into which the encoded data is written
- * @param length the length to be encoded
+ * @param length the length to be encoded: that of the whole packet, length field included
  * @return the number of bytes written to the buffer
  */
 int MQTTSNPacket_encode(unsigned char* buf, int length)
@@ -67,7 +67,7 @@ int MQTTSNPacket_encode(unsigned char* buf, int length)
 	int rc = 0;
 
 	FUNC_ENTRY;
-	if (length >= 255)
+	if (length > 255)
 	{
 		writeChar(&buf, 0x01);
 		writeInt(&buf, length);
-- 
2.43.0


From 2e2b67c042fda66ef963039c02bc27599600f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 02/69] fix: write the form of an MQTTSNString that
 MQTTSNstrlen measured

---
 MQTTSNPacket/src/MQTTSNPacket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index ff37f69..fe7a6d1 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -191,13 +191,13 @@ int getLenStringLen(char* ptr)
 
 void writeMQTTSNString(unsigned char** pptr, MQTTSNString MQTTSNString)
 {
-	if (MQTTSNString.lenstring.len > 0)
+	if (MQTTSNString.cstring)
+		writeCString(pptr, MQTTSNString.cstring);
+	else if (MQTTSNString.lenstring.len > 0)
 	{
 		memcpy(*pptr, (const unsigned char*)MQTTSNString.lenstring.data, MQTTSNString.lenstring.len);
 		*pptr += MQTTSNString.lenstring.len;
 	}
-	else if (MQTTSNString.cstring)
-		writeCString(pptr, MQTTSNString.cstring);
 }
 
 
-- 
2.43.0


From 3a6272a4ccb036196007031b7bbe50d52cb68e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 03/69] fix: leave an absent gateway address out of the GWINFO
 length

---
 MQTTSNPacket/src/MQTTSNSearchServer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index c83fd16..2a82ede 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -102,6 +102,8 @@ int MQTTSNSerialize_gwinfo(unsigned char* buf, int buflen, unsigned char gateway
 	int rc = 0;
 
 	FUNC_ENTRY;
+	if (gatewayaddress == NULL)
+		gatewayaddress_len = 0; /* no address, so none is counted in the length */
 	if ((len = MQTTSNPacket_len(2 + gatewayaddress_len)) > buflen)
 	{
 		rc = MQTTSNPACKET_BUFFER_TOO_SHORT;
-- 
2.43.0


From 6db4d0b91f9ff0463586d254b694d68c1d8c3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 04/69] fix: keep the deserializers inside the packet that was
 received

The end of the data was taken from the length field without comparing it with
the number of bytes in the buffer, and bytes were read before checking there
were any.
---
 MQTTSNPacket/src/MQTTSNConnectClient.c      | 20 +++---------
 MQTTSNPacket/src/MQTTSNConnectServer.c      | 35 ++++++---------------
 MQTTSNPacket/src/MQTTSNDeserializePublish.c | 27 +++++-----------
 MQTTSNPacket/src/MQTTSNPacket.c             | 22 +++++++++++++
 MQTTSNPacket/src/MQTTSNPacket.h             |  1 +
 MQTTSNPacket/src/MQTTSNSearchClient.c       | 10 ++----
 MQTTSNPacket/src/MQTTSNSearchServer.c       |  5 +--
 MQTTSNPacket/src/MQTTSNSubscribeClient.c    |  5 +--
 MQTTSNPacket/src/MQTTSNSubscribeServer.c    |  7 ++---
 MQTTSNPacket/src/MQTTSNUnsubscribeClient.c  |  5 +--
 MQTTSNPacket/src/MQTTSNUnsubscribeServer.c  |  7 ++---
 11 files changed, 55 insertions(+), 89 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index e8a6d93..38e59b7 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -87,12 +87,9 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += (rc = MQTTSNPacket_decode(curdata, buflen, &mylen)); /* read length */
-	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (!MQTTSNPacket_bounds(buf, buflen, 2, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNACK)
@@ -197,12 +194,9 @@ int MQTTSNDeserialize_pingresp(unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_bounds(buf, buflen, 1, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGRESP)
@@ -425,12 +419,9 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (!MQTTSNPacket_bounds(buf, buflen, 2, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
@@ -457,12 +448,9 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (!MQTTSNPacket_bounds(buf, buflen, 2, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 1b707ef..367c9d7 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -32,15 +32,12 @@ int MQTTSNDeserialize_connect(MQTTSNPacket_connectData* data, unsigned char* buf
 {
 	MQTTSNFlags flags;
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
 	int version;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 2)
+	if (!MQTTSNPacket_bounds(buf, len, 5, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNECT)
@@ -107,12 +104,9 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = -1;
-	int mylen;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_bounds(buf, buflen, 1, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_DISCONNECT)
@@ -197,14 +191,11 @@ exit:
 int MQTTSNDeserialize_pingreq(MQTTSNString* clientID, unsigned char* buf, int len)
 {
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (!MQTTSNPacket_bounds(buf, len, 1, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGREQ)
@@ -260,20 +251,17 @@ int MQTTSNDeserialize_willtopic1(int *willQoS, unsigned char *willRetain, MQTTSN
 {
 	MQTTSNFlags flags;
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (!MQTTSNPacket_bounds(buf, len, 1, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
 		goto exit;
 
-	flags.all = readChar(&curdata);
+	flags.all = (curdata < enddata) ? readChar(&curdata) : 0; /* an empty will topic has no flags */
 	*willQoS = flags.bits.QoS;
 	*willRetain = flags.bits.retain;
 
@@ -322,14 +310,11 @@ int MQTTSNDeserialize_willtopicupd(int *willQoS, unsigned char *willRetain, MQTT
 int MQTTSNDeserialize_willmsg1(MQTTSNString* willMsg, unsigned char* buf, int len, enum MQTTSN_msgTypes packet_type)
 {
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (!MQTTSNPacket_bounds(buf, len, 1, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
diff --git a/MQTTSNPacket/src/MQTTSNDeserializePublish.c b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
index 98de94b..7464f57 100644
--- a/MQTTSNPacket/src/MQTTSNDeserializePublish.c
+++ b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
@@ -40,12 +40,9 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 6, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBLISH)
@@ -73,6 +70,8 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 
 	if (topic->type == MQTTSN_TOPIC_TYPE_NORMAL && *qos == 3)
 	{
+		if (topic->data.long_.len > enddata - curdata)
+			goto exit;
 		topic->data.long_.name = (char*)curdata;
 		curdata += topic->data.long_.len;
 	}
@@ -92,12 +91,9 @@ int MQTTSNDeserialize_puback(unsigned short* topicid, unsigned short* packetid,
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 6, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBACK)
@@ -127,12 +123,9 @@ int MQTTSNDeserialize_ack(unsigned char* type, unsigned short* packetid, unsigne
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 3, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	*type = readChar(&curdata);
@@ -163,12 +156,9 @@ int MQTTSNDeserialize_register(unsigned short* topicid, unsigned short* packetid
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 5, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGISTER)
@@ -203,12 +193,9 @@ int MQTTSNDeserialize_regack(unsigned short* topicid, unsigned short* packetid,
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 6, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGACK)
diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index fe7a6d1..90eefda 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -116,6 +116,28 @@ exit:
 }
 
 
+/**
+ * Locates the part of a received packet which follows the length field, checking that it is all in the buffer
+ * @param buf the buffer that contains the MQTT-SN packet
+ * @param buflen the length in bytes of the data in the supplied buffer
+ * @param minlen the least number of bytes that must follow the length field
+ * @param curdata returned pointer to the byte after the length field, the message type
+ * @param enddata returned pointer to the end of the packet
+ * @return 1 if the packet is complete, 0 if not
+ */
+int MQTTSNPacket_bounds(unsigned char* buf, int buflen, int minlen, unsigned char** curdata, unsigned char** enddata)
+{
+	int mylen = 0;
+	int lenlen = MQTTSNPacket_decode(buf, buflen, &mylen);
+
+	if (lenlen < 0 || mylen > buflen || mylen < lenlen + minlen)
+		return 0;
+	*curdata = buf + lenlen;
+	*enddata = buf + mylen;
+	return 1;
+}
+
+
 /**
  * Calculates an integer from two bytes read from the input buffer
  * @param pptr pointer to the input buffer - incremented by the number of bytes used & returned
diff --git a/MQTTSNPacket/src/MQTTSNPacket.h b/MQTTSNPacket/src/MQTTSNPacket.h
index 3d9b296..15c4f05 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.h
+++ b/MQTTSNPacket/src/MQTTSNPacket.h
@@ -133,6 +133,7 @@ int MQTTSNPacket_len(int length);
 
 int MQTTSNPacket_encode(unsigned char* buf, int length);
 int MQTTSNPacket_decode(unsigned char* buf, int buflen, int* value);
+int MQTTSNPacket_bounds(unsigned char* buf, int buflen, int minlen, unsigned char** curdata, unsigned char** enddata);
 
 int readInt(unsigned char** pptr);
 char readChar(unsigned char** pptr);
diff --git a/MQTTSNPacket/src/MQTTSNSearchClient.c b/MQTTSNPacket/src/MQTTSNSearchClient.c
index af93c19..56ea013 100644
--- a/MQTTSNPacket/src/MQTTSNSearchClient.c
+++ b/MQTTSNPacket/src/MQTTSNSearchClient.c
@@ -33,12 +33,9 @@ int MQTTSNDeserialize_advertise(unsigned char* gatewayid, unsigned short* durati
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 4, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_ADVERTISE)
@@ -102,12 +99,9 @@ int MQTTSNDeserialize_gwinfo(unsigned char* gatewayid, unsigned short* gatewayad
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 2, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_GWINFO)
diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index 2a82ede..6761e01 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -65,12 +65,9 @@ int MQTTSNDeserialize_searchgw(unsigned char* radius, unsigned char* buf, int bu
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 2, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SEARCHGW)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeClient.c b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
index 97680ed..901a256 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
@@ -112,12 +112,9 @@ int MQTTSNDeserialize_suback(int* qos, unsigned short* topicid, unsigned short*
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 7, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeServer.c b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
index 54f6faa..e45e908 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
@@ -36,12 +36,9 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 4, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBSCRIBE)
@@ -60,6 +57,8 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
index 9d952f7..3d3c0f5 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
@@ -94,12 +94,9 @@ int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 3, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
index fe727bc..7bfcf1a 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
@@ -24,12 +24,9 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
-	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (!MQTTSNPacket_bounds(buf, buflen, 4, &curdata, &enddata)) /* read length */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBSCRIBE)
@@ -44,6 +41,8 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
-- 
2.43.0


From acef0085eedbdc01dd6a02008fb84517466ba5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 05/69] fix: make the dup flag unsigned so that 1 is read back
 as 1

---
 MQTTSNPacket/src/MQTTSNPacket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.h b/MQTTSNPacket/src/MQTTSNPacket.h
index 15c4f05..c96ff31 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.h
+++ b/MQTTSNPacket/src/MQTTSNPacket.h
@@ -85,7 +85,7 @@ typedef union
 #if defined(REVERSED)
 	struct
 	{
-		int dup: 1;
+		unsigned int dup: 1;
 		unsigned int QoS : 2;
 		unsigned int retain : 1;
 		unsigned int will : 1;
@@ -100,7 +100,7 @@ typedef union
 		unsigned int will : 1;
 		unsigned int retain : 1;
 		unsigned int QoS : 2;
-		int dup: 1;
+		unsigned int dup: 1;
 	} bits;
 #endif
 } MQTTSNFlags;
-- 
2.43.0


From f6fb1e7bc4e9cc447adc290e219026bc9f938bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 06/69] fix: always clear the cstring of an MQTTSNString that
 is read

MQTTSNstrlen and MQTTSNSerialize_* prefer the cstring, so one left over from
an uninitialised or reused structure replaced the string that was received.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 90eefda..6a0ac38 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -234,6 +234,7 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 	int rc = 0;
 
 	FUNC_ENTRY;
+	MQTTSNString->cstring = NULL;
 	MQTTSNString->lenstring.len = enddata - *pptr;
 	if (MQTTSNString->lenstring.len > 0)
 	{
@@ -241,10 +242,7 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 		*pptr += MQTTSNString->lenstring.len;
 	}
 	else
-	{
 		MQTTSNString->lenstring.data = NULL;
-		MQTTSNString->cstring = NULL;
-	}
 	rc = 1;
 	FUNC_EXIT_RC(rc);
 	return rc;
-- 
2.43.0


From 274a8cdda45b9afc54c3e0234031476cd24288b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 07/69] fix: report an absent DISCONNECT duration as -1 and a
 bad DISCONNECT as 0

Both are what the comment of MQTTSNDeserialize_disconnect promises; the output
was left unset, and -1 passed for success in the gateway.
---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp   | 2 +-
 MQTTSNPacket/src/MQTTSNConnectServer.c | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 72189db..78f1570 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -397,7 +397,7 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 {
     int dur = 0;
     int rc = MQTTSNDeserialize_disconnect(&dur, _buf, _bufLen);
-    *duration = (uint16_t) dur;
+    *duration = (uint16_t) (dur > 0 ? dur : 0);
     return rc;
 }
 
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 367c9d7..c165785 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -103,7 +103,7 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 {
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
-	int rc = -1;
+	int rc = 0;
 
 	FUNC_ENTRY;
 	if (!MQTTSNPacket_bounds(buf, buflen, 1, &curdata, &enddata)) /* read length */
@@ -114,7 +114,9 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 
 	if (enddata - curdata == 2)
 		*duration = readInt(&curdata);
-	else if (enddata != curdata)
+	else if (enddata == curdata)
+		*duration = -1;
+	else
 		goto exit;
 
 	rc = 1;
-- 
2.43.0


From 6a8aac95f4e3ac4df25afecf1e54574455b65331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 08/69] fix: check that there is a message type before
 MQTTSNPacket_read returns it

---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 6a0ac38..b9ab9b9 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -287,7 +287,7 @@ int MQTTSNPacket_read(unsigned char* buf, int buflen, int (*getfn)(unsigned char
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen < 0 || datalen != len || len <= lenlen)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
@@ -304,7 +304,7 @@ int MQTTSNPacket_read_nb(unsigned char* buf, int buflen)
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen < 0 || datalen != len || len <= lenlen)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
-- 
2.43.0


From ae9ac08f019374d4a75c000f93588f18cefa8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 09/69] fix: keep MQTTGWPacket inside the packet it received
 and size its buffers for the packet it sends

---
 MQTTSNGateway/src/MQTTGWPacket.cpp           | 76 ++++++++++++++------
 MQTTSNGateway/src/MQTTGWPacket.h             |  2 +-
 MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp |  2 +-
 3 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 921bcee..5d2d7a4 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -199,7 +199,7 @@ int MQTTGWPacket::recv(Network* network)
         {
             return -2;
         }
-        if (network->recv(&c, 1) == -1)
+        if (network->recv(&c, 1) != 1)
         {
             return -1;
         }
@@ -234,11 +234,15 @@ int MQTTGWPacket::recv(Network* network)
 
 int MQTTGWPacket::send(Network* network)
 {
-    unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
-    memset(buf, 0, MQTTSNGW_MAX_PACKET_SIZE);
+    unsigned char* buf = (unsigned char*) calloc(getPacketLength(), 1);
+    if (!buf)
+    {
+        return -1;
+    }
     int len = getPacketData(buf);
-    return network->send(buf, len);
-
+    int rc = network->send(buf, len);
+    free(buf);
+    return rc;
 }
 
 int MQTTGWPacket::getAck(Ack* ack)
@@ -248,6 +252,10 @@ int MQTTGWPacket::getAck(Ack* ack)
     {
         return 0;
     }
+    if (_remainingLength < 2)
+    {
+        return 0;
+    }
     char* ptr = (char*) _data;
     ack->header.byte = _header.byte;
     ack->msgId = readInt((char**) &ptr);
@@ -256,7 +264,7 @@ int MQTTGWPacket::getAck(Ack* ack)
 
 int MQTTGWPacket::getCONNACK(Connack* resp)
 {
-    if (_header.bits.type != CONNACK)
+    if (_header.bits.type != CONNACK || _remainingLength < 2)
     {
         return 0;
     }
@@ -269,7 +277,7 @@ int MQTTGWPacket::getCONNACK(Connack* resp)
 
 int MQTTGWPacket::getSUBACK(unsigned short* msgId, unsigned char* rc)
 {
-    if (_header.bits.type != SUBACK)
+    if (_header.bits.type != SUBACK || _remainingLength < 3)
     {
         return 0;
     }
@@ -281,13 +289,18 @@ int MQTTGWPacket::getSUBACK(unsigned short* msgId, unsigned char* rc)
 
 int MQTTGWPacket::getPUBLISH(Publish* pub)
 {
-    if (_header.bits.type != PUBLISH)
+    if (_header.bits.type != PUBLISH || _remainingLength < 2)
     {
         return 0;
     }
     char* ptr = (char*) _data;
+    int topiclen = readInt((char**) &ptr);
+    if (_remainingLength < 2 + topiclen + (_header.bits.qos > 0 ? 2 : 0))
+    {
+        return 0;
+    }
     pub->header = _header;
-    pub->topiclen = readInt((char**) &ptr);
+    pub->topiclen = topiclen;
     pub->topic = (char*) _data + 2;
     ptr += pub->topiclen;
     if (_header.bits.qos > 0)
@@ -324,6 +337,11 @@ int MQTTGWPacket::setCONNECT(Connect* connect, unsigned char* username, unsigned
     }
 
     _data = (unsigned char*) calloc(_remainingLength, 1);
+    if (!_data)
+    {
+        clearData();
+        return 0;
+    }
     unsigned char* ptr = _data;
 
     if (connect->version == 3)
@@ -446,6 +464,7 @@ int MQTTGWPacket::setAck(unsigned char msgType, unsigned short msgid)
         writeInt(&data, msgid);
         return 1;
     }
+    clearData();
     return 0;
 }
 
@@ -491,6 +510,7 @@ void MQTTGWPacket::clearData(void)
     if (_data)
     {
         free(_data);
+        _data = nullptr;
     }
     _header.byte = 0;
     _remainingLength = 0;
@@ -523,7 +543,7 @@ char* MQTTGWPacket::getMsgId(char* pbuf)
     case PUBCOMP:
     case SUBACK:
     case UNSUBACK:
-        sprintf(pbuf, " %02X%02X", _data[0], _data[1]);
+        sprintf(pbuf, " %04X", getMsgId());
         break;
     default:
         sprintf(pbuf, "    ");
@@ -557,7 +577,10 @@ int MQTTGWPacket::getMsgId(void)
     case UNSUBSCRIBE:
     case SUBACK:
     case UNSUBACK:
-        msgId = 256 * (unsigned char) _data[0] + (unsigned char) _data[1];
+        if (_remainingLength >= 2)
+        {
+            msgId = 256 * (unsigned char) _data[0] + (unsigned char) _data[1];
+        }
         break;
     default:
         break;
@@ -574,14 +597,12 @@ void MQTTGWPacket::setMsgId(int msgId)
     {
     case PUBLISH:
         Publish pub;
-        pub.topiclen = 0;
-        pub.msgId = 0;
-        getPUBLISH(&pub);
-        pub.msgId = msgId;
-        ptr = _data + pub.topiclen;
-        writeInt(&ptr, pub.msgId);
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        if (_header.bits.qos > 0 && getPUBLISH(&pub))
+        {
+            ptr = _data + 2 + pub.topiclen;
+            *ptr++ = (unsigned char) (msgId / 256);
+            *ptr = (unsigned char) (msgId % 256);
+        }
         break;
     case SUBSCRIBE:
     case UNSUBSCRIBE:
@@ -591,9 +612,12 @@ void MQTTGWPacket::setMsgId(int msgId)
     case PUBCOMP:
     case SUBACK:
     case UNSUBACK:
-        ptr = _data;
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        if (_remainingLength >= 2)
+        {
+            ptr = _data;
+            *ptr++ = (unsigned char) (msgId / 256);
+            *ptr = (unsigned char) (msgId % 256);
+        }
         break;
     default:
         break;
@@ -602,9 +626,14 @@ void MQTTGWPacket::setMsgId(int msgId)
 
 char* MQTTGWPacket::print(char* pbuf)
 {
-    uint8_t packetData[MQTTSNGW_MAX_PACKET_SIZE];
     char* ptr = pbuf;
     char** pptr = &pbuf;
+    uint8_t* packetData = (uint8_t*) calloc(getPacketLength(), 1);
+    if (!packetData)
+    {
+        **pptr = 0;
+        return ptr;
+    }
     int len = getPacketData(packetData);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
     for (int i = 0; i < size; i++)
@@ -613,6 +642,7 @@ char* MQTTGWPacket::print(char* pbuf)
         *pptr += 3;
     }
     **pptr = 0;
+    free(packetData);
     return ptr;
 }
 
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 46df326..f0aa7b6 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -198,7 +198,7 @@ typedef struct
  */
 typedef struct
 {
-    unsigned char len;
+    unsigned short len;
     char* data;
 } UTF8String;
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
index 4fb4282..9a72a70 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
@@ -128,7 +128,7 @@ Client* AdapterManager::getClient(Client* client)
 
 int AdapterManager::unicastToClient(Client* client, MQTTSNPacket* packet, ClientSendTask* task)
 {
-    char pbuf[SIZE_OF_LOG_PACKET * 3];
+    char pbuf[SIZE_OF_LOG_PACKET * 3 + 1];
     Forwarder* fwd = client->getForwarder();
     int rc = 0;
 
-- 
2.43.0


From 81d2d7e0c10fdd6f39fbc1e43e66363fb5110ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 10/69] fix: keep MQTTSNPacket accessors inside the packet and
 don't copy past a packet that could not be serialized

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 219 ++++++++++-----------------
 MQTTSNGateway/src/MQTTSNGWPacket.h   |   6 +-
 2 files changed, 82 insertions(+), 143 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 78f1570..dfc9556 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -72,11 +72,19 @@ int MQTTSNPacket::serialize(uint8_t* buf)
     return _bufLen;
 }
 
-int MQTTSNPacket::desirialize(unsigned char* buf, unsigned short len)
+int MQTTSNPacket::desirialize(unsigned char* buf, int len)
 {
     if (_buf)
     {
         free(_buf);
+        _buf = nullptr;
+        _bufLen = 0;
+    }
+
+    /* a negative length is the error code of a serializer */
+    if (len <= 0)
+    {
+        return 0;
     }
 
     _buf = (unsigned char*) calloc(len, sizeof(unsigned char));
@@ -106,24 +114,51 @@ int MQTTSNPacket::recv(SensorNetwork* network)
 
 int MQTTSNPacket::getType(void)
 {
-    if (_bufLen == 0)
-    {
-        return 0;
-    }
+    unsigned char* ptr = getField(-1, 1);
+    return ptr ? *ptr : 0;
+}
+
+/* Returns a pointer to size bytes at offset pos behind the message type, or nullptr if the packet is too short */
+unsigned char* MQTTSNPacket::getField(int pos, int size)
+{
     int value = 0;
     int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return _buf[p];
+    if (p <= 0 || p + 1 + pos + size > _bufLen)
+    {
+        return nullptr;
+    }
+    return _buf + p + 1 + pos;
 }
 
-bool MQTTSNPacket::isQoSMinusPUBLISH(void)
+/* Returns a pointer to the message id, or nullptr if the packet doesn't have it */
+unsigned char* MQTTSNPacket::getMsgIdField(void)
 {
-    if (_bufLen == 0)
+    switch (getType())
     {
-        return false;;
+    case MQTTSN_PUBLISH:
+    case MQTTSN_SUBACK:
+        return getField(3, 2);
+    case MQTTSN_PUBACK:
+    case MQTTSN_REGISTER:
+    case MQTTSN_REGACK:
+        return getField(2, 2);
+    case MQTTSN_PUBREC:
+    case MQTTSN_PUBREL:
+    case MQTTSN_PUBCOMP:
+    case MQTTSN_UNSUBACK:
+        return getField(0, 2);
+    case MQTTSN_SUBSCRIBE:
+    case MQTTSN_UNSUBSCRIBE:
+        return getField(1, 2);
+    default:
+        return nullptr;
     }
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return ((_buf[p] == MQTTSN_PUBLISH) && ((_buf[p + 1] & 0x60) == 0x60));
+}
+
+bool MQTTSNPacket::isQoSMinusPUBLISH(void)
+{
+    unsigned char* flags = getField(0, 1);
+    return flags && getType() == MQTTSN_PUBLISH && ((*flags & 0x60) == 0x60);
 }
 
 unsigned char* MQTTSNPacket::getPacketData(void)
@@ -161,7 +196,7 @@ int MQTTSNPacket::setConnect(void)
 {
     unsigned char buf[40];
     int buflen = sizeof(buf);
-    MQTTSNPacket_connectData data;
+    MQTTSNPacket_connectData data = MQTTSNPacket_connectData_initializer;
     data.clientID.cstring = (char*) "client01";
     int len = MQTTSNSerialize_connect(buf, buflen, &data);
     return desirialize(buf, len);
@@ -169,7 +204,8 @@ int MQTTSNPacket::setConnect(void)
 
 bool MQTTSNPacket::isAccepted(void)
 {
-    return (getType() == MQTTSN_CONNACK) && (_buf[2] == MQTTSN_RC_ACCEPTED);
+    unsigned char* rc = getField(0, 1);
+    return rc && (getType() == MQTTSN_CONNACK) && (*rc == MQTTSN_RC_ACCEPTED);
 }
 
 int MQTTSNPacket::setCONNACK(uint8_t returnCode)
@@ -213,12 +249,12 @@ int MQTTSNPacket::setREGACK(uint16_t topicId, uint16_t msgId, uint8_t returnCode
 }
 
 int MQTTSNPacket::setPUBLISH(uint8_t dup, int qos, uint8_t retained, uint16_t msgId, MQTTSN_topicid topic, uint8_t* payload,
-        uint16_t payloadlen)
+        int payloadlen)
 {
     unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
     int buflen = sizeof(buf);
     int len = MQTTSNSerialize_publish(buf, buflen, (unsigned char) dup, qos, (unsigned char) retained, (unsigned short) msgId,
-            topic, (unsigned char*) payload, (int) payloadlen);
+            topic, (unsigned char*) payload, payloadlen);
     return desirialize(buf, len);
 }
 
@@ -331,7 +367,13 @@ int MQTTSNPacket::getCONNECT(MQTTSNPacket_connectData* data)
 
 int MQTTSNPacket::getCONNACK(uint8_t* returnCode)
 {
-    return MQTTSNSerialize_connack(_buf, _bufLen, (int) *returnCode);
+    int rc = 0;
+    if (!MQTTSNDeserialize_connack(&rc, _buf, _bufLen))
+    {
+        return 0;
+    }
+    *returnCode = (uint8_t) rc;
+    return 1;
 }
 
 int MQTTSNPacket::getWILLTOPIC(int* willQoS, uint8_t* willRetain, MQTTSNString* willTopic)
@@ -386,7 +428,7 @@ int MQTTSNPacket::getUNSUBSCRIBE(uint16_t* msgId, MQTTSN_topicid* topicFilter)
 
 int MQTTSNPacket::getPINGREQ(void)
 {
-    if (getType() == MQTTSN_PINGRESP && _bufLen > 2)
+    if (getType() == MQTTSN_PINGREQ && _bufLen > 2)
     {
         return _bufLen - 2;
     }
@@ -403,7 +445,10 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 
 int MQTTSNPacket::getWILLTOPICUPD(uint8_t* willQoS, uint8_t* willRetain, MQTTSNString* willTopic)
 {
-    return MQTTSNDeserialize_willtopicupd((int*) willQoS, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    int qos = 0;
+    int rc = MQTTSNDeserialize_willtopicupd(&qos, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    *willQoS = (uint8_t) qos;
+    return rc;
 }
 
 int MQTTSNPacket::getWILLMSGUPD(MQTTSNString* willMsg)
@@ -428,44 +473,15 @@ char* MQTTSNPacket::print(char* pbuf)
 
 char* MQTTSNPacket::getMsgId(char* pbuf)
 {
-    int value = 0;
-    int p = 0;
+    unsigned char* ptr = getMsgIdField();
 
-    switch (getType())
+    if (ptr)
+    {
+        sprintf(pbuf, "%c%02X%02X", getType() == MQTTSN_PUBLISH && isDuplicate() ? '+' : ' ', ptr[0], ptr[1]);
+    }
+    else
     {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        if (_buf[p + 1] & 0x80)
-        {
-            sprintf(pbuf, "+%02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
-        else
-        {
-            sprintf(pbuf, " %02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        sprintf(pbuf, " %02X%02X", _buf[4], _buf[5]);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[2], _buf[3]);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        sprintf(pbuf, " %02X%02X", _buf[p + 2], _buf[p + 3]);
-        break;
-    case MQTTSN_SUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[5], _buf[6]);
-        break;
-    default:
         sprintf(pbuf, "    ");
-        break;
     }
     if (strcmp(pbuf, " 0000") == 0)
     {
@@ -476,101 +492,22 @@ char* MQTTSNPacket::getMsgId(char* pbuf)
 
 int MQTTSNPacket::getMsgId(void)
 {
-    int value = 0;
-    int p = 0;
-    int msgId = 0;
-    char* ptr = 0;
-
-    switch (getType())
-    {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        ptr = (char*) _buf + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        ptr = (char*) _buf + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBACK:
-        ptr = (char*) _buf + 5;
-        msgId = readInt((char**) &ptr);
-        break;
-    default:
-        break;
-    }
-    return msgId;
+    char* ptr = (char*) getMsgIdField();
+    return ptr ? readInt((char**) &ptr) : 0;
 }
 
 void MQTTSNPacket::setMsgId(uint16_t msgId)
 {
-    int value = 0;
-    int p = 0;
-    //unsigned char* ptr = 0;
-
-    switch (getType())
+    unsigned char* ptr = getMsgIdField();
+    if (ptr)
     {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 4] = (unsigned char) (msgId / 256);
-        _buf[p + 5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        _buf[4] = (unsigned char) (msgId / 256);
-        _buf[5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        _buf[2] = (unsigned char) (msgId / 256);
-        _buf[3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 2] = (unsigned char) (msgId / 256);
-        _buf[p + 3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBACK:
-        _buf[5] = (unsigned char) (msgId / 256);
-        _buf[6] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 5;
-        //writeInt(&ptr, msgId);
-        break;
-    default:
-        break;
+        ptr[0] = (unsigned char) (msgId / 256);
+        ptr[1] = (unsigned char) (msgId % 256);
     }
 }
 
 bool MQTTSNPacket::isDuplicate(void)
 {
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return (_buf[p + 1] & 0x80);
+    unsigned char* flags = getField(0, 1);
+    return flags && (*flags & 0x80);
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 4ac3007..803f41b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -34,7 +34,7 @@ public:
     int broadcast(SensorNetwork* network);
     int recv(SensorNetwork* network);
     int serialize(uint8_t* buf);
-    int desirialize(unsigned char* buf, unsigned short len);
+    int desirialize(unsigned char* buf, int len);
     int getType(void);
     unsigned char* getPacketData(void);
     int getPacketLength(void);
@@ -49,7 +49,7 @@ public:
     int setREGISTER(uint16_t topicId, uint16_t msgId, MQTTSNString* TopicName);
     int setREGACK(uint16_t topicId, uint16_t msgId, uint8_t returnCode);
     int setPUBLISH(uint8_t dup, int qos, uint8_t retained, uint16_t msgId,
-            MQTTSN_topicid topic, uint8_t* payload, uint16_t payloadlen);
+            MQTTSN_topicid topic, uint8_t* payload, int payloadlen);
     int setPUBACK(uint16_t topicId, uint16_t msgId, uint8_t returnCode);
     int setPUBREC(uint16_t msgId);
     int setPUBREL(uint16_t msgId);
@@ -96,6 +96,8 @@ public:
     char* print(char* buf);
 
 private:
+    unsigned char* getField(int pos, int size);
+    unsigned char* getMsgIdField(void);
     unsigned char* _buf;    // Ptr to a packet data
     int _bufLen; // length of the packet data
 };
-- 
2.43.0


From f770b36b2cb8e19fc2401f0edb2f6db4c8afd9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 11/69] fix: check the lengths of an encapsulated packet

---
 .../src/MQTTSNGWEncapsulatedPacket.cpp        | 22 ++++++++++++++-----
 .../src/MQTTSNGWEncapsulatedPacket.h          |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
index 24c2afe..38eb578 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
@@ -95,20 +95,27 @@ MQTTSNGWEncapsulatedPacket::~MQTTSNGWEncapsulatedPacket()
 int MQTTSNGWEncapsulatedPacket::unicast(SensorNetwork* network, SensorNetAddress* sendTo)
 {
     uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
-    int len = serialize(buf);
+    int len = serialize(buf, sizeof(buf));
+    if (len <= 0)
+    {
+        return -1;
+    }
     return network->unicast(buf, len, sendTo);
 }
 
-int MQTTSNGWEncapsulatedPacket::serialize(uint8_t* buf)
+int MQTTSNGWEncapsulatedPacket::serialize(uint8_t* buf, int buflen)
 {
-    int len = 0;
+    int len = _mqttsn ? _mqttsn->getPacketLength() : 0;
+    if (_id._len > 255 - 3 || _id._len + 3 + len > buflen)
+    {
+        return 0;
+    }
     buf[0] = _id._len + 3;
     buf[1] = MQTTSN_ENCAPSULATED;
     buf[2] = _ctrl;
     memcpy(buf + 3, _id._nodeId, _id._len);
     if (_mqttsn)
     {
-        len = _mqttsn->getPacketLength();
         memcpy(buf + buf[0], _mqttsn->getPacketData(), len);
     }
     return buf[0] + len;
@@ -122,6 +129,11 @@ int MQTTSNGWEncapsulatedPacket::desirialize(unsigned char* buf, unsigned short l
         _mqttsn = nullptr;
     }
 
+    if (len < 3 || buf[0] < 3 || buf[0] > len)
+    {
+        return 0;
+    }
+
     _ctrl = buf[2];
     _id.setId(buf + 3, buf[0] - 3);
 
@@ -161,7 +173,7 @@ char* MQTTSNGWEncapsulatedPacket::print(char* pbuf)
     char** pptr = &pbuf;
 
     uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
-    int len = serialize(buf);
+    int len = serialize(buf, sizeof(buf));
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
 
     for (int i = 1; i < size; i++)
diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
index 080b9ab..e8ea78b 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
@@ -41,7 +41,7 @@ public:
     MQTTSNGWEncapsulatedPacket(MQTTSNPacket* packet);
     ~MQTTSNGWEncapsulatedPacket();
     int unicast(SensorNetwork* network, SensorNetAddress* sendTo);
-    int serialize(uint8_t* buf);
+    int serialize(uint8_t* buf, int buflen);
     int desirialize(unsigned char* buf, unsigned short len);
     int getType(void);
     unsigned char* getPacketData(void);
-- 
2.43.0


From 6275038c9e43bc222e6987917b83c8c9400a560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 12/69] fix: discard a malformed encapsulated packet and free
 the outer one

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f4c019b..f52c3b0 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -110,7 +110,14 @@ void ClientRecvTask::run()
 
                 /* get the packet from the encapsulation message */
                 MQTTSNGWEncapsulatedPacket encap;
-                encap.desirialize(packet->getPacketData(), packet->getPacketLength());
+                int rc = encap.desirialize(packet->getPacketData(), packet->getPacketLength());
+                delete packet;
+                if (rc == 0)
+                {
+                    WRITELOG("%s Encapsulated message from %s is incorrect.%s\n",
+                    ERRMSG_HEADER, senderAddr.sprint(buf), ERRMSG_FOOTER);
+                    continue;
+                }
                 nodeId.setId(encap.getWirelessNodeId());
                 client = fwd->getClient(&nodeId);
                 packet = encap.getMQTTSNPacket();
-- 
2.43.0


From d676786c06ec98f4cd9d2b63894943953a305a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 13/69] fix: reject unregistered clients under
 ClientAuthentication and bound the client id that is logged

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f52c3b0..9d690cb 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -198,13 +198,16 @@ void ClientRecvTask::run()
 
                 if (fwd != nullptr)
                 {
-                    if (client == nullptr)
+                    if (client == nullptr && !clientList->isAuthorized())
                     {
                         /* create a new client */
                         client = clientList->createClient(0, &data.clientID, clientType);
                     }
                     /* Add to a forwarded client list of forwarder. */
-                    fwd->addClient(client, &nodeId);
+                    if (client != nullptr)
+                    {
+                        fwd->addClient(client, &nodeId);
+                    }
                 }
                 else
                 {
@@ -216,7 +219,7 @@ void ClientRecvTask::run()
                             client->setClientAddress(&senderAddr);
                         }
                     }
-                    else
+                    else if (!clientList->isAuthorized())
                     {
                         /* create a new client */
                         client = clientList->createClient(&senderAddr, &data.clientID, clientType);
@@ -270,13 +273,15 @@ void ClientRecvTask::log(Client* client, MQTTSNPacket* packet, MQTTSNString* id)
     {
         if (id->cstring)
         {
-            strncpy(cstr, id->cstring, strlen(id->cstring));
+            strncpy(cstr, id->cstring, MAX_CLIENTID_LENGTH);
+            cstr[MAX_CLIENTID_LENGTH] = '\0';
             clientId = cstr;
         }
         else
         {
-            memset((void*) cstr, 0, id->lenstring.len + 1);
-            strncpy(cstr, id->lenstring.data, id->lenstring.len);
+            int len = id->lenstring.len > MAX_CLIENTID_LENGTH ? MAX_CLIENTID_LENGTH : id->lenstring.len;
+            memset((void*) cstr, 0, len + 1);
+            strncpy(cstr, id->lenstring.data, len);
             clientId = cstr;
         }
     }
-- 
2.43.0


From 91d7ff13e5a71ceaa79f662b9e7cc7bf9705d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 14/69] fix: keep the other clients of a forwarder when one is
 erased

---
 MQTTSNGateway/src/MQTTSNGWForwarder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
index a157747..98a82bb 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
@@ -234,6 +234,7 @@ void Forwarder::eraseClient(Client* client)
         }
         else
         {
+            prev = p;
             p = p->_next;
         }
     }
-- 
2.43.0


From f64b3ca902d27ab2eb0ed70e5ee0f17f516c4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 15/69] fix: find a client by its whole id, give it its
 predefined topics, and keep to MaxNumberOfClients

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index cc5006f..da88e3a 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -321,7 +321,8 @@ Client* ClientList::getClient(MQTTSNString* clientId)
 
     while (client != nullptr)
     {
-        if (strncmp((const char*) client->getClientId(), clID, MQTTSNstrlen(*clientId)) == 0)
+        const char* id = (const char*) client->getClientId();
+        if (strlen(id) == (size_t) MQTTSNstrlen(*clientId) && strncmp(id, clID, MQTTSNstrlen(*clientId)) == 0)
         {
             _mutex.unlock();
             return client;
@@ -424,7 +425,10 @@ Client* ClientList::createPredefinedTopic(MQTTSNString* clientId, string topicNa
             return nullptr;
         }
 
-        client = createClient(NULL, clientId, aggregate);
+        if (client == nullptr)
+        {
+            client = createClient(NULL, clientId, aggregate ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);
+        }
 
         if (client == nullptr)
         {
@@ -476,8 +480,6 @@ void ClientsPool::allocate(int maxClients)
 {
     Client* cl = nullptr;
 
-    _firstClient = new Client();
-
     for (int i = 0; i < maxClients; i++)
     {
         if ((cl = new Client()) == nullptr)
-- 
2.43.0


From 0cf9d31b2560d3db95871c99ef5cc7a5615adf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 16/69] fix: let a client that is connecting send its WILLTOPIC
 and WILLMSG

---
 MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp |  3 +++
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp           |  4 +++-
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp        | 10 ++++++++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 8e81351..c92d8fd 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -102,6 +102,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         evwr->setClientSendEvent(client, reqTopic);
 
         /* Send WILLTOPICREQ to the client */
+        client->setWaitWillMsgFlg(true);
         _gateway->getClientSendQue()->post(evwr);
     }
     else
@@ -140,6 +141,7 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
             return;
         }
         client->setWillMsg(willmsg);
+        client->setWaitWillMsgFlg(false);
 
         /* Send CONNACK to the client */
         MQTTSNPacket* packet = new MQTTSNPacket();
@@ -147,6 +149,7 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
         Event* ev = new Event();
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
+        client->connackSended(MQTTSN_RC_ACCEPTED);
 
         sendStoredPublish(client);
         return;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 9d690cb..32540b7 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -156,7 +156,9 @@ void ClientRecvTask::run()
         {
             log(client, packet, 0);
 
-            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT)
+            bool isWill = packet->getType() == MQTTSN_WILLTOPIC || packet->getType() == MQTTSN_WILLMSG;
+
+            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !(isWill && client->isWaitWillMsg()))
             {
                 WRITELOG("%s MQTTSNGWClientRecvTask %s is not connecting.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 69f3b41..6773ec6 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -140,6 +140,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
         evwr->setClientSendEvent(client, reqTopic);
 
         /* Send WILLTOPICREQ to the client */
+        client->setWaitWillMsgFlg(true);
         _gateway->getClientSendQue()->post(evwr);
     }
     else
@@ -160,6 +161,12 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
  */
 void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* packet)
 {
+    if (!client->isWaitWillMsg())
+    {
+        DEBUGLOG("     MQTTSNConnectionHandler::handleWilltopic  WaitWillMsgFlg is off.\n");
+        return;
+    }
+
     int willQos;
     uint8_t willRetain;
     MQTTSNString willTopic = MQTTSNString_initializer;
@@ -177,7 +184,6 @@ void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* pack
     connectData->flags.bits.willRetain = willRetain;
 
     /* Send WILLMSGREQ to the client */
-    client->setWaitWillMsgFlg(true);
     MQTTSNPacket* reqMsg = new MQTTSNPacket();
     reqMsg->setWILLMSGREQ();
     Event* evt = new Event();
@@ -199,7 +205,7 @@ void MQTTSNConnectionHandler::handleWillmsg(Client* client, MQTTSNPacket* packet
     MQTTSNString willmsg = MQTTSNString_initializer;
     Connect* connectData = client->getConnectData();
 
-    if (client->isConnectSendable())
+    if (client->isConnectSendable() && connectData->willTopic != nullptr)
     {
         /* save WillMsg in the client */
         if (packet->getWILLMSG(&willmsg) == 0)
-- 
2.43.0


From 4f95c60fd3e7070cfb113fd085eea6dd39851139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 17/69] fix: drop a PUBLISH that has no topic or no message id,
 and acknowledge a short topic by its own id

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 3824173..9d81e44 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -69,6 +69,12 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
     pub.header.bits.retain = retained;
     tid = topicid.data.id;
 
+    if ((qos == 1 || qos == 2) && msgId == 0)
+    {
+        WRITELOG("%s Invalid MsgId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+        return nullptr;
+    }
+
     Topic* topic = nullptr;
 
     if (topicid.type == MQTTSN_TOPIC_TYPE_SHORT)
@@ -77,6 +83,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
         shortTopic[1] = topicid.data.short_name[1];
         pub.topic = shortTopic;
         pub.topiclen = 2;
+        tid = ((uint8_t) shortTopic[0] << 8) | (uint8_t) shortTopic[1];
     }
     else
     {
@@ -90,7 +97,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             }
         }
 
-        if (!topic && qos == 3)
+        if (!topic && (qos == 0 || qos == 3))
         {
             WRITELOG("%s Invalid TopicId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
             return nullptr;
-- 
2.43.0


From 141136720e206e5e07fbedb4d2aaef89ca906d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 18/69] fix: never send the broker an aggregated packet without
 a message id

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp   | 9 ++++++++-
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 6 ++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 9d81e44..91f007c 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -279,10 +279,17 @@ void MQTTSNPublishHandler::handleAggregatePublish(Client* client, MQTTSNPacket*
             {
                 msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
             }
-            else
+            if (msgId == 0)
             {
                 msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
             }
+            if (msgId == 0)
+            {
+                WRITELOG("%s MQTTSNPublishHandler can't create MessageIdTableElement  %s%s\n",
+                ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+                delete publish;
+                return;
+            }
             publish->setMsgId(msgId);
         }
         Event* ev1 = new Event();
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 797e36b..f056b32 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -214,7 +214,7 @@ void MQTTSNSubscribeHandler::handleAggregateSubscribe(Client* client, MQTTSNPack
         {
             msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
         }
-        else
+        if (msgId == 0)
         {
             msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
         }
@@ -223,6 +223,7 @@ void MQTTSNSubscribeHandler::handleAggregateSubscribe(Client* client, MQTTSNPack
         {
             WRITELOG("%s MQTTSNSubscribeHandler can't create MessageIdTableElement  %s%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            delete subscribe;
             return;
         }
 
@@ -249,7 +250,7 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
         {
             msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
         }
-        else
+        if (msgId == 0)
         {
             msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
         }
@@ -258,6 +259,7 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
         {
             WRITELOG("%s MQTTSNUnsubscribeHandler can't create MessageIdTableElement  %s%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            delete unsubscribe;
             return;
         }
 
-- 
2.43.0


From 90a3bdc2b5fcd1ad39d848b5cb91871167a87c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 19/69] fix: acknowledge a subscription with the id of its
 topic

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index f056b32..aec0865 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -108,8 +108,8 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
         topicstr[0] = topicFilter.data.short_name[0];
         topicstr[1] = topicFilter.data.short_name[1];
         topicstr[2] = 0;
-        topicId = topicFilter.data.short_name[0] << 8;
-        topicId |= topicFilter.data.short_name[1];
+        topicId = (uint8_t) topicFilter.data.short_name[0] << 8;
+        topicId |= (uint8_t) topicFilter.data.short_name[1];
         subscribe = new MQTTGWPacket();
         subscribe->setSUBSCRIBE(topicstr, (uint8_t) qos, (uint16_t) msgId);
     }
@@ -129,7 +129,11 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     }
 
     RespExit: MQTTSNPacket* sSuback = new MQTTSNPacket();
-    sSuback->setSUBACK(qos, topicFilter.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
+    if (topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED)
+    {
+        topicId = topicFilter.data.id;
+    }
+    sSuback->setSUBACK(qos, topicId, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
     evsuback = new Event();
     evsuback->setClientSendEvent(client, sSuback);
     _gateway->getClientSendQue()->post(evsuback);
-- 
2.43.0


From ad5cfcf5bea37d739e67429b78a8c27d025853b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 20/69] fix: reject a REGISTER when the topic table of the
 client is full

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 91f007c..d21fc9b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -220,10 +220,17 @@ void MQTTSNPublishHandler::handleRegister(Client* client, MQTTSNPacket* packet)
         topicid.data.long_.len = topicName.lenstring.len;
         topicid.data.long_.name = topicName.lenstring.data;
 
-        id = client->getTopics()->add(&topicid)->getTopicId();
+        Topic* topic = client->getTopics()->add(&topicid);
 
         MQTTSNPacket* regAck = new MQTTSNPacket();
-        regAck->setREGACK(id, msgId, MQTTSN_RC_ACCEPTED);
+        if (topic)
+        {
+            regAck->setREGACK(topic->getTopicId(), msgId, MQTTSN_RC_ACCEPTED);
+        }
+        else
+        {
+            regAck->setREGACK(0, msgId, MQTTSN_RC_REJECTED_CONGESTED);
+        }
         Event* ev = new Event();
         ev->setClientSendEvent(client, regAck);
         _gateway->getClientSendQue()->post(ev);
-- 
2.43.0


From 8d8576f8ec81adc955796dbc45ec3fe54484f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 21/69] fix: ignore a PUBLISH or PUBREL from the broker that is
 malformed, and keep the topic name of a new topic

---
 MQTTSNGateway/src/MQTTGWPacket.cpp         |  2 +-
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 30 +++++++++++++++++-----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 5d2d7a4..a81b8b9 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -289,7 +289,7 @@ int MQTTGWPacket::getSUBACK(unsigned short* msgId, unsigned char* rc)
 
 int MQTTGWPacket::getPUBLISH(Publish* pub)
 {
-    if (_header.bits.type != PUBLISH || _remainingLength < 2)
+    if (_header.bits.type != PUBLISH || _header.bits.qos == 3 || _remainingLength < 2)
     {
         return 0;
     }
diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 20381f1..591e551 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -48,7 +48,10 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     if (client->isSleep())
     {
         Publish pub;
-        packet->getPUBLISH(&pub);
+        if (packet->getPUBLISH(&pub) == 0)
+        {
+            return;
+        }
 
         WRITELOG(FORMAT_Y_G_G, currentDateTime(), packet->getName(),
         RIGHTARROW, client->getClientId(), "is sleeping. a message was saved.");
@@ -71,12 +74,18 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
             delete msg;
             return;
         }
-        client->setClientSleepPacket(msg);
+        if (client->setClientSleepPacket(msg) == 0)
+        {
+            delete msg;
+        }
         return;
     }
 
     Publish pub;
-    packet->getPUBLISH(&pub);
+    if (packet->getPUBLISH(&pub) == 0 || pub.topiclen == 0)
+    {
+        return;
+    }
 
     MQTTSNPacket* snPacket = new MQTTSNPacket();
 
@@ -84,7 +93,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     MQTTSN_topicid topicId;
     uint16_t id = 0;
 
-    if (pub.topiclen <= 2)
+    if (pub.topiclen == 2)
     {
         topicId.type = MQTTSN_TOPIC_TYPE_SHORT;
         *(topicId.data.short_name) = *pub.topic;
@@ -131,7 +140,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicId.type = MQTTSN_TOPIC_TYPE_NORMAL;
                 topicId.data.long_.len = pub.topiclen;
                 topicId.data.long_.name = pub.topic;
-                topicId.data.id = 0;
             }
 
             /* add the Topic and get a TopicId */
@@ -280,15 +288,23 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 
 void MQTTGWPublishHandler::handleAggregatePubrel(Client* client, MQTTGWPacket* packet)
 {
+    Ack ack;
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
     Publish pub;
-    packet->getPUBLISH(&pub);
+    pub.msgId = ack.msgId;
     replyACK(client, &pub, PUBCOMP);
 }
 
 void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket* packet)
 {
     Publish pub;
-    packet->getPUBLISH(&pub);
+    if (packet->getPUBLISH(&pub) == 0)
+    {
+        return;
+    }
 
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
-- 
2.43.0


From d8a664e75c4ca757118b48dbc010edd630a28c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 22/69] fix: ignore acknowledgements from the broker that are
 malformed

---
 MQTTSNGateway/src/MQTTGWConnectionHandler.cpp |  5 ++++-
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 10 ++++++++--
 MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp  | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
index 621b950..96c8063 100644
--- a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
@@ -34,7 +34,10 @@ void MQTTGWConnectionHandler::handleConnack(Client* client, MQTTGWPacket* packet
 {
     uint8_t rc = MQTT_SERVER_UNAVAILABLE;
     Connack resp;
-    packet->getCONNACK(&resp);
+    if (packet->getCONNACK(&resp) == 0)
+    {
+        return;
+    }
 
     /* convert MQTT ReturnCode to MQTT-SN one */
     if (resp.rc == MQTT_CONNECTION_ACCEPTED)
diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 591e551..22cd385 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -207,7 +207,10 @@ void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 void MQTTGWPublishHandler::handlePuback(Client* client, MQTTGWPacket* packet)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
     TopicIdMapElement* topicId = client->getWaitedPubTopicId((uint16_t) ack.msgId);
     if (topicId)
     {
@@ -227,7 +230,10 @@ void MQTTGWPublishHandler::handlePuback(Client* client, MQTTGWPacket* packet)
 void MQTTGWPublishHandler::handleAck(Client* client, MQTTGWPacket* packet, int type)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
 
     if (client->isActive() || client->isAwake())
     {
diff --git a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
index 9569442..9918f90 100644
--- a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
@@ -37,7 +37,10 @@ void MQTTGWSubscribeHandler::handleSuback(Client* client, MQTTGWPacket* packet)
     uint8_t returnCode;
     int qos = 0;
 
-    packet->getSUBACK(&msgId, &rc);
+    if (packet->getSUBACK(&msgId, &rc) == 0)
+    {
+        return;
+    }
     TopicIdMapElement* topicId = client->getWaitedSubTopicId(msgId);
 
     if (topicId)
@@ -64,7 +67,10 @@ void MQTTGWSubscribeHandler::handleSuback(Client* client, MQTTGWPacket* packet)
 void MQTTGWSubscribeHandler::handleUnsuback(Client* client, MQTTGWPacket* packet)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
     MQTTSNPacket* snPacket = new MQTTSNPacket();
     snPacket->setUNSUBACK(ack.msgId);
     Event* evt = new Event();
-- 
2.43.0


From c7874a3302700ac803bbcc40da742fba3a04b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 23/69] fix: let a sleeping client stay asleep on DISCONNECT
 with a duration, and ignore a malformed one

---
 MQTTSNGateway/src/MQTTGWConnectionHandler.cpp |  1 +
 .../src/MQTTSNAggregateConnectionHandler.cpp  |  7 +++++++
 MQTTSNGateway/src/MQTTSNGWClient.cpp          | 19 ++++++++++++++++--
 .../src/MQTTSNGWConnectionHandler.cpp         | 20 ++++++++++---------
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
index 96c8063..8e37179 100644
--- a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
@@ -98,4 +98,5 @@ void MQTTGWConnectionHandler::handleDisconnect(Client* client, MQTTGWPacket* pac
     client->getNetwork()->close();
     Event* ev1 = new Event();
     ev1->setClientSendEvent(client, snPacket);
+    _gateway->getClientSendQue()->post(ev1);
 }
diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index c92d8fd..c16a2b0 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -161,6 +161,13 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
  */
 void MQTTSNAggregateConnectionHandler::handleDisconnect(Client* client, MQTTSNPacket* packet)
 {
+    uint16_t duration = 0;
+
+    if (packet->getDISCONNECT(&duration) == 0)
+    {
+        return;
+    }
+
     MQTTSNPacket* snMsg = new MQTTSNPacket();
     snMsg->setDISCONNECT(0);
     Event* evt = new Event();
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index b209265..a9f35fb 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -247,7 +247,10 @@ void Client::updateStatus(MQTTSNPacket* packet)
             break;
         case MQTTSN_DISCONNECT:
             uint16_t duration;
-            packet->getDISCONNECT(&duration);
+            if (packet->getDISCONNECT(&duration) == 0)
+            {
+                break;
+            }
             if (duration)
             {
                 _status = Cstat_Asleep;
@@ -269,7 +272,19 @@ void Client::updateStatus(MQTTSNPacket* packet)
             _status = Cstat_Active;
             break;
         case MQTTSN_DISCONNECT:
-            disconnected();
+            uint16_t duration;
+            if (packet->getDISCONNECT(&duration) == 0)
+            {
+                break;
+            }
+            if (duration)
+            {
+                _status = Cstat_Asleep;
+            }
+            else
+            {
+                disconnected();
+            }
             break;
         case MQTTSN_PINGREQ:
             _status = Cstat_Awake;
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 6773ec6..3bb985c 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -235,16 +235,18 @@ void MQTTSNConnectionHandler::handleDisconnect(Client* client, MQTTSNPacket* pac
 {
     uint16_t duration = 0;
 
-    if (packet->getDISCONNECT(&duration) != 0)
+    if (packet->getDISCONNECT(&duration) == 0)
     {
-        if (duration == 0)
-        {
-            MQTTGWPacket* mqMsg = new MQTTGWPacket();
-            mqMsg->setHeader(DISCONNECT);
-            Event* ev = new Event();
-            ev->setBrokerSendEvent(client, mqMsg);
-            _gateway->getBrokerSendQue()->post(ev);
-        }
+        return;
+    }
+
+    if (duration == 0)
+    {
+        MQTTGWPacket* mqMsg = new MQTTGWPacket();
+        mqMsg->setHeader(DISCONNECT);
+        Event* ev = new Event();
+        ev->setBrokerSendEvent(client, mqMsg);
+        _gateway->getBrokerSendQue()->post(ev);
     }
 
     MQTTSNPacket* snMsg = new MQTTSNPacket();
-- 
2.43.0


From b7157885119e2d0cccf3fb8d947cdb685732ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 24/69] fix: search a topic name for wildcards within its
 length, and count only the ids that are erased

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 68cf1fe..b5288d1 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -407,7 +407,8 @@ TopicIdMapElement::TopicIdMapElement(uint16_t msgId, uint16_t topicId, MQTTSN_to
 
     if (_type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)
+        if (memchr(topic->data.long_.name, '#', topic->data.long_.len) != 0
+                || memchr(topic->data.long_.name, '+', topic->data.long_.len) != 0)
         {
             _wildcard = 1;
         }
@@ -526,12 +527,12 @@ void TopicIdMap::erase(uint16_t msgId)
                 p->_next->_prev = p->_prev;
             }
             delete p;
+            _cnt--;
             break;
 
         }
         p = p->_next;
     }
-    _cnt--;
 }
 
 void TopicIdMap::clear(void)
-- 
2.43.0


From 3a1d214f4e4400ef213a7e6ce04dfdd333d3c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 25/69] fix: don't follow the list of a message id table that
 is being deleted

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 8db2cb1..40e567a 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -35,10 +35,10 @@ MessageIdTable::~MessageIdTable()
         MessageIdElement* p = _tail;
         while (p)
         {
-            MessageIdElement* pPrev = p;
+            MessageIdElement* pPrev = p->_prev;
             delete p;
             _cnt--;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
-- 
2.43.0


From 633cbd526f0caef3b5cb70394abd9a5ca7df96cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 26/69] fix: don't dereference an aggregate topic that does not
 exist

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index e5703d6..d07d2bf 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -66,9 +66,9 @@ AggregateTopicElement::~AggregateTopicElement(void)
         ClientTopicElement* p = _tail;
         while (p)
         {
-            ClientTopicElement* pPrev = p;
+            ClientTopicElement* pPrev = p->_prev;
             delete p;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
@@ -223,10 +223,11 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     if (elm != nullptr)
     {
         elm->eraseClient(client);
-    }
-    if (elm->_head == nullptr)
-    {
-        erase(elm);
+
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
     }
     _mutex.unlock();
     return;
-- 
2.43.0


From eb902625338d068a477029264439f7872c79d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 27/69] fix: free the list element of a PUBLISH that got its
 REGACK

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index a9f35fb..a7ae255 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -696,8 +696,10 @@ void WaitREGACKPacketList::erase(uint16_t REGACKMsgId)
                 p->_next->_prev = p->_prev;
             }
             _cnt--;
+            // The packet is deleted after sending to Client.
+            p->_packet = nullptr;
+            delete p;
             break;
-            // Do not delete element. Element is deleted after sending to Client.
         }
         p = p->_next;
     }
-- 
2.43.0


From 7c2d1a0824e1fb4fd402a611b5d4c21ef8c8b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 28/69] fix: hand the packets for the secure adapter client to
 the secure proxy

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 8e0e347..0df17b6 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -164,7 +164,7 @@ void Adapter::checkConnection(void)
 void Adapter::send(MQTTSNPacket* packet, Client* client)
 {
     Proxy* proxy = _proxy;
-    if (client->isSecureNetwork() && !_isSecure)
+    if (client->isSecureNetwork())
     {
         if (_isSecure)
         {
@@ -172,7 +172,7 @@ void Adapter::send(MQTTSNPacket* packet, Client* client)
         }
         else
         {
-            WRITELOG("%s %s  No Secure connections %s 's packet is discarded.%s\n",
+            WRITELOG("%s No Secure connections %s 's packet is discarded.%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
             return;
         }
-- 
2.43.0


From 1e6a44f921961852a7c03d122c748e7f2ff98b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 29/69] fix: don't fill the table of awaited PUBACKs with QoS 2
 messages, which get none

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index d21fc9b..f46df9f 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -128,7 +128,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
         }
     }
     /* Save a msgId & a TopicId pare for PUBACK */
-    if (msgId && qos > 0 && qos < 3)
+    if (msgId && qos == 1)
     {
         client->setWaitedPubTopicId(msgId, tid, &topicid);
     }
-- 
2.43.0


From caf767e30d57adac76ba0f4bce19414212dee91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 30/69] fix: discard a PUBLISH of the broker that is too big
 for MQTT-SN instead of sending an empty packet

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 40 ++++++++++++++++++----
 MQTTSNGateway/src/MQTTGWPublishHandler.h   |  1 +
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 22cd385..570fb13 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -163,7 +163,17 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicName.lenstring.data = topicId.data.long_.name;
 
                 uint16_t regackMsgId = client->getNextSnMsgId();
-                regPacket->setREGISTER(id, regackMsgId, &topicName);
+                int rc = regPacket->setREGISTER(id, regackMsgId, &topicName);
+
+                topicId.data.id = id;
+                if (rc == 0 || snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos,
+                        (uint8_t) pub.header.bits.retain, (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload,
+                        pub.payloadlen) == 0)
+                {
+                    delete regPacket;
+                    discard(client, &pub, snPacket);
+                    return;
+                }
 
                 /* send REGISTER */
                 Event* evrg = new Event();
@@ -171,9 +181,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 _gateway->getClientSendQue()->post(evrg);
 
                 /* send PUBLISH */
-                topicId.data.id = id;
-                snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
-                        (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen);
                 client->getWaitREGACKPacketList()->setPacket(snPacket, regackMsgId);
                 return;
             }
@@ -187,14 +194,35 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         }
     }
 
-    snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
-            (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen);
+    if (snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
+            (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen) == 0)
+    {
+        discard(client, &pub, snPacket);
+        return;
+    }
     Event* ev1 = new Event();
     ev1->setClientSendEvent(client, snPacket);
     _gateway->getClientSendQue()->post(ev1);
 
 }
 
+/*
+ *  PUBLISH doesn't fit into a MQTT-SN packet
+ */
+void MQTTGWPublishHandler::discard(Client* client, Publish* pub, MQTTSNPacket* packet)
+{
+    WRITELOG("%sMQTTGWPublishHandler PUBLISH message is too big. It is discarded.%s\n", ERRMSG_HEADER, ERRMSG_FOOTER);
+    if (pub->header.bits.qos == 1)
+    {
+        replyACK(client, pub, PUBACK);
+    }
+    else if (pub->header.bits.qos == 2)
+    {
+        replyACK(client, pub, PUBREC);
+    }
+    delete packet;
+}
+
 void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 {
     MQTTGWPacket* pubAck = new MQTTGWPacket();
diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.h b/MQTTSNGateway/src/MQTTGWPublishHandler.h
index c32faee..94b2748 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.h
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.h
@@ -38,6 +38,7 @@ public:
     void handleAggregatePubrel(Client* client, MQTTGWPacket* packet);
 
 private:
+    void discard(Client* client, Publish* pub, MQTTSNPacket* packet);
     void replyACK(Client* client, Publish* pub, int type);
 
     Gateway* _gateway;
-- 
2.43.0


From ce7158defe676cc4fb8d1fdd9282d64119282673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 31/69] fix: search the NUL-terminated name of the topic for
 wildcards, not the one in the packet

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 3 +++
 MQTTSNGateway/src/MQTTSNGWTopic.cpp            | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index aec0865..fc958cd 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -98,6 +98,9 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
             }
         }
         topicId = topic->getTopicId();
+        /* the name in the packet is not terminated by a NUL */
+        topicFilter.data.long_.name = (char*) topic->getTopicName()->c_str();
+        topicFilter.data.long_.len = topic->getTopicName()->length();
         subscribe = new MQTTGWPacket();
 
         subscribe->setSUBSCRIBE((char*) topic->getTopicName()->c_str(), (uint8_t) qos, (uint16_t) msgId);
diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index b5288d1..25b1dab 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -407,8 +407,7 @@ TopicIdMapElement::TopicIdMapElement(uint16_t msgId, uint16_t topicId, MQTTSN_to
 
     if (_type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        if (memchr(topic->data.long_.name, '#', topic->data.long_.len) != 0
-                || memchr(topic->data.long_.name, '+', topic->data.long_.len) != 0)
+        if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)
         {
             _wildcard = 1;
         }
-- 
2.43.0


From 02b6dcbc3c5b80631f8e481aa91ac326936aa791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 32/69] fix: reject a SUBSCRIBE or UNSUBSCRIBE with the
 reserved topic type instead of reading an unset topic

---
 MQTTSNPacket/src/MQTTSNSubscribeServer.c   | 2 ++
 MQTTSNPacket/src/MQTTSNUnsubscribeServer.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/MQTTSNPacket/src/MQTTSNSubscribeServer.c b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
index e45e908..9c8a025 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
@@ -66,6 +66,8 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 		topicFilter->data.short_name[0] = readChar(&curdata);
 		topicFilter->data.short_name[1] = readChar(&curdata);
 	}
+	else
+		goto exit; /* reserved topic type */
 
 	rc = 1;
 exit:
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
index 7bfcf1a..5e21588 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
@@ -50,6 +50,8 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 		topicFilter->data.short_name[0] = readChar(&curdata);
 		topicFilter->data.short_name[1] = readChar(&curdata);
 	}
+	else
+		goto exit; /* reserved topic type */
 
 	rc = 1;
 exit:
-- 
2.43.0


From 22e5f32142ceef944d678674c26aa37c2696a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 33/69] fix: read the rest of a broker's packet that arrives in
 several parts instead of dropping the connection

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index a81b8b9..3183afc 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -217,16 +217,19 @@ int MQTTGWPacket::recv(Network* network)
             return -3;
         }
 
-        /* read Payload */
-        int remlen = network->recv(_data, _remainingLength);
+        /* read Payload, it may arrive in several parts */
+        int pos = 0;
 
-        if (remlen == -1)
+        while (pos < _remainingLength)
         {
-            return -1;
-        }
-        else if (remlen != _remainingLength)
-        {
-            return -2;
+            int remain = _remainingLength - pos;
+            int rlen = network->recv(_data + pos, remain > UINT16_MAX ? UINT16_MAX : remain);
+
+            if (rlen <= 0)
+            {
+                return -1;
+            }
+            pos += rlen;
         }
     }
     return 1 + len + _remainingLength;
-- 
2.43.0


From f66a2300e12bb037270f4c5535c70bf5101ba0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 34/69] fix: a client is connecting before its CONNECT is sent,
 a CONNACK may be handled at once

---
 MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
index e061d0c..54a36d3 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
@@ -116,13 +116,16 @@ void BrokerSendTask::run()
 
             /* send a packet */
             _light->blueLight(true);
+
+            if (packet->getType() == CONNECT)
+            {
+                /* CONNACK may be handled as soon as CONNECT is sent */
+                client->connectSended();
+            }
+
             if ((rc = packet->send(client->getNetwork())) > 0)
             {
-                if (packet->getType() == CONNECT)
-                {
-                    client->connectSended();
-                }
-                else if (packet->getType() == DISCONNECT)
+                if (packet->getType() == DISCONNECT)
                 {
                     client->getNetwork()->close();
                     client->disconnected();
-- 
2.43.0


From dfe9372c3b6a2f6a5c1e689cdded874c489368e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 35/69] fix: accept a packet of the broker with a remaining
 length of four bytes

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 3183afc..5e8f6f8 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -24,7 +24,7 @@ using namespace MQTTSNGW;
 int readInt(char** ptr);
 void writeInt(unsigned char** pptr, int msgId);
 
-#define MAX_NO_OF_REMAINING_LENGTH_BYTES    3
+#define MAX_NO_OF_REMAINING_LENGTH_BYTES    4
 /**
  * List of the predefined MQTT v3 packet names.
  */
-- 
2.43.0


From 1c781c8b104155d6bb3da98a2740622dc588a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 36/69] fix: change the clients of a forwarder and search the
 client list under their locks

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 3 +++
 MQTTSNGateway/src/MQTTSNGWForwarder.cpp  | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index da88e3a..25db034 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -291,12 +291,14 @@ Client* ClientList::getClient(SensorNetAddress* addr)
 
 Client* ClientList::getClient(int index)
 {
+    _mutex.lock();
     Client* client = _firstClient;
     int p = 0;
     while (client != nullptr)
     {
         if (p == index)
         {
+            _mutex.unlock();
             return client;
         }
         else
@@ -305,6 +307,7 @@ Client* ClientList::getClient(int index)
             p++;
         }
     }
+    _mutex.unlock();
     return nullptr;
 }
 
diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
index 98a82bb..e60aba0 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
@@ -129,11 +129,12 @@ const char* Forwarder::getId(void)
 
 void Forwarder::addClient(Client* client, WirelessNodeId* id)
 {
+    client->setForwarder(this);
+
+    _mutex.lock();
     ForwarderElement* p = _headClient;
     ForwarderElement* prev = nullptr;
 
-    client->setForwarder(this);
-
     if (p != nullptr)
     {
         while (p)
@@ -142,6 +143,7 @@ void Forwarder::addClient(Client* client, WirelessNodeId* id)
             {
                 client->setForwarder(this);
                 p->setWirelessNodeId(id);
+                _mutex.unlock();
                 return;
             }
             prev = p;
@@ -162,6 +164,7 @@ void Forwarder::addClient(Client* client, WirelessNodeId* id)
     {
         _headClient = fclient;
     }
+    _mutex.unlock();
 }
 
 Client* Forwarder::getClient(WirelessNodeId* id)
-- 
2.43.0


From 46de49609f74fccbeea9640f87aefa4eb584e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 37/69] fix: the address of the broker was freed again when its
 name could not be resolved

---
 MQTTSNGateway/src/linux/Network.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index c4c5a52..9a2f931 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -87,6 +87,7 @@ bool TCPStack::bind(const char* service)
 	if (_addrinfo)
 	{
 		freeaddrinfo(_addrinfo);
+		_addrinfo = 0;
 	}
 	int err = getaddrinfo(0, service, &hints, &_addrinfo);
 	if (err)
@@ -170,6 +171,7 @@ bool TCPStack::connect(const char* host, const char* service)
 	if (_addrinfo)
 	{
 		freeaddrinfo(_addrinfo);
+		_addrinfo = 0;
 	}
 
 	int err = getaddrinfo(host, service, &hints, &_addrinfo);
@@ -190,6 +192,7 @@ bool TCPStack::connect(const char* host, const char* service)
 
 	if (setsockopt(sockfd, SOL_SOCKET, SO_REUSEADDR, (const char*) &on, sizeof(on)) == -1)
 	{
+		::close(sockfd);
 		return false;
 	}
 
-- 
2.43.0


From 3b36925ca7350b618620cc3bcdd6578841cf9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 38/69] fix: a broker without certificate or common name
 crashed the gateway, the host name was read beyond its end

---
 MQTTSNGateway/src/linux/Network.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 9a2f931..6345259 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -390,11 +390,22 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 		}
 
 		peer = SSL_get_peer_certificate(_ssl);
-		X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
-		char* pos = peer_CN;
-		if ( *pos == '*')
+		int cnlen = -1;
+		if (peer != nullptr)
 		{
-			while (*host++ != '.');
+			cnlen = X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
+		}
+		if (cnlen < 0 || strlen(peer_CN) != (size_t) cnlen)
+		{
+			WRITELOG("SSL_get_peer_certificate() error: the certificate of the Broker has no valid common name\n");
+			SSL_free(_ssl);
+			_ssl = 0;
+			throw false;
+		}
+		const char* pos = peer_CN;
+		if (pos[0] == '*' && pos[1] == '.' && strchr(host, '.') != nullptr)
+		{
+			host = strchr(host, '.') + 1;
 			pos += 2;
 		}
 		if ( strcmp(host, pos))
-- 
2.43.0


From 48f3f71c95946c4aa5432fc912aac48bf08c53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 39/69] fix: a TLS session ended by the broker stayed valid,
 and data was read in front of the buffer

---
 MQTTSNGateway/src/linux/Network.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 6345259..50c71d1 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -552,7 +552,9 @@ loop:
 			break;
 		case SSL_ERROR_ZERO_RETURN:
 			SSL_shutdown(_ssl);
+			SSL_free(_ssl);
 			_ssl = 0;
+			_sslValid = false;
 			_numOfInstance--;
 			//TCPStack::close();
 			_busy = false;
@@ -568,6 +570,7 @@ loop:
 		case SSL_ERROR_SYSCALL:
 			SSL_free(_ssl);
 			_ssl = 0;
+			_sslValid = false;
 			_numOfInstance--;
 			//TCPStack::close();
 			_busy = false;
@@ -583,7 +586,6 @@ loop:
 		}
 	} while (SSL_pending(_ssl) && !readBlocked);
 
-	bpos += rlen;
 	while (true)
 	{
 		FD_ZERO(&rset);
-- 
2.43.0


From fc78068291ba5e6802fe23ef3a0510b567eb7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 40/69] fix: connecting again replaced a TLS session in use, or
 reused the connection of a handshake that had failed

---
 MQTTSNGateway/src/linux/Network.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 50c71d1..b766d2f 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -341,12 +341,18 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 			}
 		}
 
-		if (! TCPStack::isValid())
+		if (TCPStack::isValid())
 		{
-			if ( !TCPStack::connect(host, port) )
+			if (_sslValid)
 			{
-				throw false;
+				throw true;   /* it is connected, another task is using it */
 			}
+			TCPStack::close();
+		}
+
+		if ( !TCPStack::connect(host, port) )
+		{
+			throw false;
 		}
 
 		_ssl = SSL_new(_ctx);
-- 
2.43.0


From ecb933d99986ada9022b4791c16724bc99b36a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 41/69] fix: after a failure a TLS context without the
 certificates was used

---
 MQTTSNGateway/src/linux/Network.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index b766d2f..6c2e55f 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -318,6 +318,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 			{
 				ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 				WRITELOG("SSL_CTX_load_verify_locations() %s\n", errmsg);
+				SSL_CTX_free(_ctx);
+				_ctx = 0;
 				throw false;
 			}
 
@@ -327,6 +329,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 				{
 					ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 					WRITELOG("SSL_CTX_use_certificate_file() %s %s\n", certkey, errmsg);
+					SSL_CTX_free(_ctx);
+					_ctx = 0;
 					throw false;
 				}
 			}
@@ -336,6 +340,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 				{
 					ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 					WRITELOG("SSL_use_PrivateKey_file() %s %s\n", prvkey, errmsg);
+					SSL_CTX_free(_ctx);
+					_ctx = 0;
 					throw false;
 				}
 			}
-- 
2.43.0


From 7e1ab9f09d8809d1d72a44125accd34d51e38e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 42/69] fix: a parameter without line end lost its last
 character, and lines without '=' were read beyond their end

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index 9473a36..9c42ef1 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -186,7 +186,7 @@ int Process::getParam(const char* parameter, char* value)
         }
 
         len = strlen(str);
-        for (pos = 0; i < len; pos++)
+        for (pos = 0; pos < len; pos++)
         {
             if (str[pos] == '=')
             {
@@ -194,13 +194,11 @@ int Process::getParam(const char* parameter, char* value)
             }
         }
 
-        if (pos == paramlen)
+        if (pos == paramlen && str[pos] == '=')
         {
             if (strncmp(str, parameter, paramlen) == 0)
             {
                 strcpy(param, str + pos + 1);
-                param[len - pos - 2] = '\0';
-
 
                 for (i = strlen(param) - 1; i >= 0 && isspace(param[i]); i--)
                     ;
-- 
2.43.0


From 6f48fbd660eeee4e14feaf3912b864f188e58a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 43/69] fix: the gateway crashed at startup with QoS-1 or
 AggregatingGateway enabled, as no clients were allocated yet

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp    | 8 ++++++++
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 9 ++++++---
 MQTTSNGateway/src/MQTTSNGWClientList.h   | 1 +
 MQTTSNGateway/src/MQTTSNGateway.cpp      | 3 +++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 0df17b6..6c6ac19 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -64,11 +64,19 @@ void Adapter::setup(const char* adpterName, AdapterType adapterType)
     idSecure.cstring = const_cast<char*>(nameSecure.c_str());
 
     Client* client = _gateway->getClientList()->createClient(0, &id, true, false, TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw Exception("Adapter::setup: MaxNumberOfClients is too small.", 0);
+    }
     setClient(client, false);
     client->setAdapterType(adapterType);
 
     client = _gateway->getClientList()->createClient(0, &idSecure, true, true,
     TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw Exception("Adapter::setup: MaxNumberOfClients is too small.", 0);
+    }
     setClient(client, true);
     client->setAdapterType(adapterType);
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 25db034..ec29b33 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -56,11 +56,14 @@ ClientList::~ClientList()
     _mutex.unlock();
 }
 
-void ClientList::initialize(bool aggregate)
+void ClientList::allocate(int maxClients)
 {
-    _maxClients = _gateway->getGWParams()->maxClients;
-    _clientsPool->allocate(_gateway->getGWParams()->maxClients);
+    _maxClients = maxClients;
+    _clientsPool->allocate(maxClients);
+}
 
+void ClientList::initialize(bool aggregate)
+{
     if (_gateway->getGWParams()->clientAuthentication)
     {
         int type = TRANSPEARENT_TYPE;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.h b/MQTTSNGateway/src/MQTTSNGWClientList.h
index 4cb2ca3..e7f61ae 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.h
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.h
@@ -57,6 +57,7 @@ public:
 	ClientList(Gateway* gw);
     ~ClientList();
 
+    void allocate(int maxClients);
     void initialize(bool aggregate);
     void setClientList(int type);
     void setPredefinedTopics(bool aggregate);
diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index d672268..68ff487 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -303,6 +303,9 @@ void Gateway::initialize(int argc, char** argv)
     /*  Setup max PacketEventQue size  */
     _packetEventQue.setMaxSize(_params.maxInflightMsgs * _params.maxClients);
 
+    /*  Allocate clients. The adapters need some of them. */
+    _clientList->allocate(_params.maxClients);
+
     /*  Initialize adapters */
     _adapterManager->initialize(_params.gatewayName, _params.aggregatingGw, _params.forwarder, _params.qosMinus1);
 
-- 
2.43.0


From cb7c6e0f04df846fa439c5afeb51457f024d2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 44/69] fix: a GatewayID above 255 was truncated instead of
 rejected

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index 68ff487..8cd5fa7 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -192,15 +192,17 @@ void Gateway::initialize(int argc, char** argv)
         _params.gwPrivatekey = strdup(param);
     }
 
+    int gatewayId = 0;
     if (getParam("GatewayID", param) == 0)
     {
-        _params.gatewayId = atoi(param);
+        gatewayId = atoi(param);
     }
 
-    if (_params.gatewayId == 0 || _params.gatewayId > 255)
+    if (gatewayId <= 0 || gatewayId > 255)
     {
         throw Exception("Gateway::initialize: invalid Gateway Id", 0);
     }
+    _params.gatewayId = gatewayId;
 
     if (getParam("GatewayName", param) == 0)
     {
-- 
2.43.0


From be605f5bbad2bffbdbbb857d57ba6b6d3f415bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 45/69] fix: a client list that is initialized alone allocates
 its clients, as before

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index ec29b33..80764e2 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -29,6 +29,7 @@ const char* common_topic = "*";
 ClientList::ClientList(Gateway* gw)
 {
     _clientCnt = 0;
+    _maxClients = 0;
     _authorize = false;
     _firstClient = nullptr;
     _endClient = nullptr;
@@ -58,12 +59,17 @@ ClientList::~ClientList()
 
 void ClientList::allocate(int maxClients)
 {
-    _maxClients = maxClients;
-    _clientsPool->allocate(maxClients);
+    if (_maxClients == 0)
+    {
+        _maxClients = maxClients;
+        _clientsPool->allocate(maxClients);
+    }
 }
 
 void ClientList::initialize(bool aggregate)
 {
+    allocate(_gateway->getGWParams()->maxClients);
+
     if (_gateway->getGWParams()->clientAuthentication)
     {
         int type = TRANSPEARENT_TYPE;
-- 
2.43.0


From ab6d6be4b6063a7a879a16ea773091e9c1b573b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 46/69] fix: sockets were left open when the UDP sensor network
 could not be opened

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index e855619..46c08b7 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -297,6 +297,7 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
     if (::bind(sock, (sockaddr*) &addru, sizeof(addru)) < 0)
 	{
 		D_NWSTACK("error can't bind unicast socket in UDPPort::open\n");
+		::close(sock);
 		return -1;
 	}
 
@@ -311,6 +312,8 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
 		close();
 		return -1;
 	}
+    _pollFds[1].fd = sock;
+    _pollFds[1].events = POLLIN;
 
     optval = 1;
     setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval));
@@ -323,6 +326,7 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
     if (::bind(sock, (sockaddr*) &addrm, sizeof(addrm)) < 0)
     {
         D_NWSTACK("error can't bind multicast socket in UDPPort::open\n");
+        close();
         return -1;
     }
 
@@ -359,8 +363,6 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
     }
 
     _multicastAddr.setAddress(inet_addr(multicastIP), htons(multiPortNo));
-    _pollFds[1].fd = sock;
-    _pollFds[1].events = POLLIN;
 
     return 0;
 }
-- 
2.43.0


From 49424600d44fdec93a64ae325c01de57b1661845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 47/69] fix: MulticastTTL was not applied to the socket on
 which broadcasts are sent

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index 46c08b7..bb88c81 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -342,7 +342,8 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
         return -1;
     }
 
-    if (setsockopt(sock, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
+    /* broadcasts are sent on the unicast socket */
+    if (setsockopt(_pollFds[0].fd, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
     {
         D_NWSTACK("error Multicast IP_MULTICAST_TTL in UDPPort::open\n");
         close();
-- 
2.43.0


From 8e77ff4a69052679f69c177efc235c91ddc9a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 48/69] fix: after a failed poll a datagram was waited for
 without time-out

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp  | 5 ++++-
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index bb88c81..6ff2d89 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -393,7 +393,10 @@ int UDPPort::broadcast(const uint8_t* buf, uint32_t length)
 int UDPPort::recv(uint8_t* buf, uint16_t len, SensorNetAddress* addr)
 {
     int rc = 0;
-    poll(_pollFds, 2, 2000);  // Timeout 2 seconds
+    if (poll(_pollFds, 2, 2000) <= 0)  // Timeout 2 seconds
+    {
+        return rc;
+    }
 
     if (_pollFds[0].revents == POLLIN)
     {
diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 353d793..6f64db1 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -442,9 +442,9 @@ int UDPPort6::broadcast(const uint8_t* buf, uint32_t length)
 int UDPPort6::recv(uint8_t* buf, uint16_t len, SensorNetAddress* addr)
 {
     int rc = poll(_pollfds, 2, 2000);  // Timeout 2secs
-    if (rc == 0)
+    if (rc <= 0)
     {
-        return rc;
+        return 0;
     }
 
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 5ebd685a3f1813745593d318166e72c7e4c4ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 49/69] fix: port numbers above 65535 were truncated instead of
 rejected

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp  | 3 ++-
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index 6ff2d89..0110153 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -108,7 +108,8 @@ int SensorNetAddress::setAddress(string* ip_port)
 	string port = ip_port->substr(pos + 1);
 	int portNo = 0;
 
-	if ((portNo = atoi(port.c_str())) == 0 || (_IpAddr = inet_addr(ip.c_str())) == INADDR_NONE)
+	portNo = atoi(port.c_str());
+	if (portNo <= 0 || portNo > 65535 || (_IpAddr = inet_addr(ip.c_str())) == INADDR_NONE)
 	{
 		return -1;
 	}
diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 6f64db1..4731e74 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -78,7 +78,8 @@ int SensorNetAddress::setAddress(string* data)
         int portNo = 0;
         string port = data->substr(pos + 1);
 
-        if ((portNo = atoi(port.c_str())) > 0)
+        portNo = atoi(port.c_str());
+        if (portNo > 0 && portNo <= 65535)
         {
             _IpAddr.sin6_port = htons(portNo);
             _IpAddr.sin6_family = AF_INET6;
-- 
2.43.0


From 89b94d8f3dc8bc29bea3b04e53bc7db35fb4b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 50/69] fix: over UDP6 the gateway started although it could
 not join its multicast group

---
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 4731e74..816f07f 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -360,12 +360,11 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
 
     ipv6_mreq addrm;
     addrm.ipv6mr_interface = ifindex;
-    inet_pton(AF_INET6, multicastAddr, &addrm.ipv6mr_multiaddr);
-    if (setsockopt(sock, IPPROTO_IPV6, IPV6_JOIN_GROUP, &addrm, sizeof(addrm)) < 0)
+    if (inet_pton(AF_INET6, multicastAddr, &addrm.ipv6mr_multiaddr) != 1 || setsockopt(sock, IPPROTO_IPV6, IPV6_JOIN_GROUP, &addrm, sizeof(addrm)) < 0)
     {
         D_NWSTACK("\033[0m\033[0;31m error %d IPV6_JOIN_GROUP in Udp6Port::open\033[0m\033[0;37m\n", errno);
         close();
-        return false;
+        return -1;
     }
 
 #ifdef DEBUG_NW
@@ -378,7 +377,7 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
     {
         D_NWSTACK("\033[0m\033[0;31m error %s IPV6_MULTICAST_LOOP\033[0m\033[0;37m\n", strerror(errno));
         close();
-        return false;
+        return -1;
     }
     if (setsockopt(sock, IPPROTO_IPV6, IPV6_MULTICAST_HOPS, &hops, sizeof(hops)) < 0)
     {
-- 
2.43.0


From ad87466acbbbb2c4debe55d659cd54c49f5fd193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 51/69] fix: when UDP6 could not be opened, descriptors that it
 had not opened were closed

---
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 816f07f..1e8b4bd 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -232,6 +232,7 @@ UDPPort6::UDPPort6()
 {
     _disconReq = false;
     _hops = 0;
+    memset(_pollfds, 0, sizeof(_pollfds));
 }
 
 UDPPort6::~UDPPort6()
-- 
2.43.0


From 838b3b2befc8601b11f31bc2d3422c090481b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 52/69] fix: serial ports of XBee and LoRaLink were set up with
 uninitialised terminal modes

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 1 +
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 9d755db..b7decb0 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -503,6 +503,7 @@ int LoRaLink::recv(uint8_t* buf)
  =========================================*/
 SerialPort::SerialPort()
 {
+	memset(&_tio, 0, sizeof(_tio));
 	_tio.c_iflag = IGNBRK | IGNPAR;
 	_tio.c_cflag = CS8 | CLOCAL | CREAD;
 	_tio.c_cc[VINTR] = 0;
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 4be4eae..6a00b54 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -408,6 +408,7 @@ void XBee::setApiMode(uint8_t mode)
  =========================================*/
 SerialPort::SerialPort()
 {
+	memset(&_tio, 0, sizeof(_tio));
 	_tio.c_iflag = IGNBRK | IGNPAR;
 	_tio.c_cflag = CS8 | CLOCAL | CRTSCTS | CREAD;
 	_tio.c_cc[VINTR] = 0;
-- 
2.43.0


From e82422588652d56430a37e533201d305b326986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 53/69] fix: frames of the XBee modem whose length is not that
 of a packet were written beyond buffers

---
 .../src/linux/xbee/SensorNetwork.cpp          | 24 +++++++++++++------
 MQTTSNGateway/src/linux/xbee/SensorNetwork.h  |  3 ++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 6a00b54..d0c1f7b 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -223,24 +223,28 @@ int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 {
-	uint8_t data[128];
+	uint8_t data[API_MAX_FRAME];
 	int len;
 
 	while ( true )
 	{
 
-		if ( (len = readApiFrame(data)) > 0 )
+		if ( (len = readApiFrame(data, sizeof(data))) > 0 )
 		{
 
 			if ( data[0] == API_RESPONSE )
 			{
+				if ( len < 12 || len - 12 > bufLen )
+				{
+					return 0;
+				}
 				memcpy(clientAddr->_address64, data + 1, 8);
 				memcpy(clientAddr->_address16, data + 9, 2);
 				len -= 12;
 				memcpy( buf, data + 12, len);
 				return len;
 			}
-			else if ( data[0] == API_XMITSTATUS )
+			else if ( data[0] == API_XMITSTATUS && len > 5 )
 			{
 				_respCd = data[5];
 				_respId = data[1];
@@ -254,11 +258,11 @@ int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 	}
 }
 
-int XBee::readApiFrame(uint8_t* recvData){
+int XBee::readApiFrame(uint8_t* recvData, uint16_t maxLen){
 	uint8_t buf;
-	uint8_t pos = 0;
+	uint16_t pos = 0;
 	uint8_t checksum = 0;
-	uint8_t len = 0;
+	uint16_t len = 0;
 
 	 while ( _serialPort->recv(&buf) )
 	 {
@@ -279,6 +283,7 @@ int XBee::readApiFrame(uint8_t* recvData){
     {
     	goto errexit;
     }
+    len = buf << 8;
 
     if ( recv(&buf) < 0 ) // LSB length
 	{
@@ -286,9 +291,14 @@ int XBee::readApiFrame(uint8_t* recvData){
 	}
 	else
 	{
-		len = buf;
+		len += buf;
 	}
 
+    if ( len > maxLen )
+    {
+    	goto errexit;
+    }
+
     pos = 0;
     while ( len-- )
     {
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
index c21ce91..1d01433 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
@@ -30,6 +30,7 @@ namespace MQTTSNGW
 #define API_RESPONSE             0x90
 #define API_MODEMSTATUS          0x8A
 #define API_XMITSTATUS           0x8B
+#define API_MAX_FRAME            268     // 12 + Payload[256]
 
 #define XMIT_STATUS_TIME_OVER    5000
 
@@ -92,7 +93,7 @@ public:
 	void setApiMode(uint8_t mode);
 
 private:
-	int readApiFrame(uint8_t* recvData);
+	int readApiFrame(uint8_t* recvData, uint16_t maxLen);
 	int recv(uint8_t* buf);
 	int send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
-- 
2.43.0


From 3d2ca0a5132e46573249bfa5787e116ddf4fae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 54/69] fix: a frame of the XBee modem that ends before its
 check byte could be accepted

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index d0c1f7b..83db7f4 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -310,7 +310,10 @@ int XBee::readApiFrame(uint8_t* recvData, uint16_t maxLen){
     	checksum += buf;
     }
 
-    recv(&buf);        // checksum
+    if ( recv(&buf) < 0 )        // checksum
+    {
+    	goto errexit;
+    }
     if ( (0xff - checksum ) == buf ){
     	D_NWSTACK("    checksum ok\r\n");
     	return pos;
@@ -400,7 +403,10 @@ int XBee::recv(uint8_t* buf)
 	{
 		if ( *buf == ESCAPE && _apiMode == 2 )
 		{
-			_serialPort->recv(buf);
+			if ( !_serialPort->recv(buf) )
+			{
+				return -1;
+			}
 			*buf = 0x20 ^ *buf;
 		}
 		return 0;
-- 
2.43.0


From d8efbceba104c1a90625fbe1942b707a0d749297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 55/69] fix: one frame in 256 asked the XBee modem for no
 report, and counted as not sent

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 83db7f4..ef03b66 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -340,7 +340,7 @@ int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
     _serialPort->send(API_XMITREQUEST); // Transmit Request API
     checksum += API_XMITREQUEST;
 
-    if (_frameId++ == 0x00 ) // Frame ID
+    if (++_frameId == 0x00 ) // Frame ID
 	{
     	_frameId = 1;
 	}
-- 
2.43.0


From 72fae397788a38906562f78e8bccf1822de3a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 56/69] fix: packets of more than 241 bytes were sent truncated
 over XBee

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 12 ++++++------
 MQTTSNGateway/src/linux/xbee/SensorNetwork.h   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index ef03b66..f6fff29 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -214,11 +214,11 @@ int XBee::open(char* device, int baudrate)
 int XBee::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(payload, (uint8_t) payloadLen, &addr);
+	return send(payload, payloadLen, &addr);
 }
 
 int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(payload, (uint8_t) payloadLen, addr);
+	return send(payload, payloadLen, addr);
 }
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
@@ -328,14 +328,14 @@ errexit:
 	return -1;
 }
 
-int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
+int XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){
 	D_NWSTACK("\r\n===> Send:    ");
     uint8_t checksum = 0;
     _respCd = -1;
 
     _serialPort->send(START_BYTE);
-    send(0x00);              // Message Length
-    send(14 + pLen);         // Message Length
+    send((14 + pLen) >> 8);    // Message Length
+    send((14 + pLen) & 0xff);  // Message Length
 
     _serialPort->send(API_XMITREQUEST); // Transmit Request API
     checksum += API_XMITREQUEST;
@@ -366,7 +366,7 @@ int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
 
     D_NWSTACK("\r\n     Payload: ");
 
-    for ( uint8_t i = 0; i < pLen; i++ ){
+    for ( uint16_t i = 0; i < pLen; i++ ){
         send(payload[i]);     // Payload
         checksum += payload[i];
     }
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
index 1d01433..7e7a5b0 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
@@ -95,7 +95,7 @@ public:
 private:
 	int readApiFrame(uint8_t* recvData, uint16_t maxLen);
 	int recv(uint8_t* buf);
-	int send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr);
+	int send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
 
 	Semaphore _sem;
-- 
2.43.0


From 3ab27003f165c1eb19b4289904d84eeb9706786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 57/69] fix: the state of the LoRaLink reader was not
 initialised

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index b7decb0..44a46d3 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -170,6 +170,7 @@ LoRaLink::LoRaLink(){
     _serialPortRx = new SerialPort();
     _serialPortTx = new SerialPort();
     _respCd = 0;
+    memset(&_loRaLinkPara, 0, sizeof(_loRaLinkPara));
 }
 
 LoRaLink::~LoRaLink(){
-- 
2.43.0


From 053934e6e25616411c05291dd020592a472037b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 58/69] fix: frames of the LoRaLink modem were written beyond
 buffers, and its reports were taken for packets

---
 .../src/linux/loralink/SensorNetwork.cpp      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 44a46d3..f70c12b 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -240,10 +240,6 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 		{
 			clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
 
-			bufLen = _loRaLinkApi.PayloadLen;
-
-			memcpy( buf, _loRaLinkApi.Payload, bufLen );
-
 			switch ( (int) _loRaLinkApi.PayloadType )
 			{
 			case API_RSP_ACK:
@@ -260,14 +256,18 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 			case MQTT_SN:
-				memcpy( buf, _loRaLinkApi.Payload, bufLen );
-				return bufLen;
+				if ( _loRaLinkApi.PayloadLen > bufLen )
+				{
+					return 0;
+				}
+				memcpy( buf, _loRaLinkApi.Payload, _loRaLinkApi.PayloadLen );
+				return _loRaLinkApi.PayloadLen;
 
 			default:
 				return 0;
 			}
 			_sem.post();
-			return bufLen;
+			return 0;
 
 		}
 		else
@@ -325,6 +325,11 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 
 		case 2:
 			api->PayloadLen += byte;
+			if ( api->PayloadLen < 7 || api->PayloadLen > LORA_PHY_MAXPAYLOAD + 7 )
+			{
+				para->apipos = 0;    // not a frame
+				continue;
+			}
 			break;
 
 		case 3:
-- 
2.43.0


From 9638de4aacb7a3db6770ec6ebdf6b07e09d2407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:59 +0000
Subject: [PATCH 59/69] fix: packets of more than 255 bytes were sent truncated
 over LoRaLink

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index f70c12b..2e6f338 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -225,11 +225,11 @@ int LoRaLink::open(LoRaLinkModemType_t type, char* device, int baudrate)
 int LoRaLink::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, &addr);
+	return send(MQTT_SN, payload, payloadLen, &addr);
 }
 
 int LoRaLink:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, addr);
+	return send(MQTT_SN, payload, payloadLen, addr);
 }
 
 int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
@@ -412,7 +412,7 @@ int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t
 
     D_LRSTACK("\r\n     Payload: ");
 
-    for ( uint8_t i = 0; i < pLen; i++ ){
+    for ( uint16_t i = 0; i < pLen; i++ ){
         send(payload[i]);     // Payload
         chks += payload[i];
     }
-- 
2.43.0


From 01b26faec35b685f1bb2f50d5a46537058c4a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 60/69] fix: bytes between frames of the LoRaLink modem were
 read as frames

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 2e6f338..8094db3 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -316,7 +316,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 		switch ( para->apipos )
 		{
 		case 0:
-			break;
+			continue;      // outside of a frame
 
 		case 1:
 			val = (uint16_t)byte;
-- 
2.43.0


From 6cc51f5e2a84da566fe1c5526758a54aaad4e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:39 +0000
Subject: [PATCH 61/69] fix: answers over UDP6 lost the interface of link-local
 clients

---
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 1e8b4bd..3dc15f3 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -399,6 +399,7 @@ int UDPPort6::unicast(const uint8_t* buf, uint32_t length, SensorNetAddress* add
     dest.sin6_family = AF_INET6;
     dest.sin6_port = addr->getPortNo();
     memcpy(dest.sin6_addr.s6_addr, (const void*) &addr->getIpAddress()->sin6_addr, sizeof(in6_addr));
+    dest.sin6_scope_id = addr->getIpAddress()->sin6_scope_id;
 
 #ifdef  DEBUG_NW
     char addrBuf[INET6_ADDRSTRLEN];
-- 
2.43.0


From 94eb4ee0ffd57d0071d675dc86bf5d6a5863e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:47 +0000
Subject: [PATCH 62/69] fix: acknowledge QoS 1 and 2 messages to the broker in
 aggregating mode

Nobody acknowledged a PUBLISH which the broker sent to the aggregater: the
acknowledgements of the clients are ended at the gateway.  The message is
acknowledged once when it has been distributed.
---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 570fb13..2e9eb63 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -225,6 +225,12 @@ void MQTTGWPublishHandler::discard(Client* client, Publish* pub, MQTTSNPacket* p
 
 void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 {
+    if (client->isAggregated())
+    {
+        /* handleAggregatePublish() has already acknowledged the message */
+        return;
+    }
+
     MQTTGWPacket* pubAck = new MQTTGWPacket();
     pubAck->setAck(type, (uint16_t) pub->msgId);
     Event* ev1 = new Event();
@@ -366,5 +372,15 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
 
         elm = elm->getNextClientElement();
     }
+
+    /* the broker waits for one acknowledgement only */
+    if (pub.header.bits.qos == 1)
+    {
+        replyACK(client, &pub, PUBACK);
+    }
+    else if (pub.header.bits.qos == 2)
+    {
+        replyACK(client, &pub, PUBREC);
+    }
 }
 
-- 
2.43.0


From 297d6dbcbcdd92683f51dd764e9a6d8e0088a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:40 +0000
Subject: [PATCH 63/69] fix: pass the PUBREL of an aggregated client on to the
 broker

The message id was forgotten with the broker's PUBREC and the client's PUBREL
was ignored, so a QoS 2 message of an aggregated client was never completed.
---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp   |  3 ++-
 MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp |  4 +--
 MQTTSNGateway/src/MQTTSNGWAdapterManager.h   |  2 +-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp     |  4 +--
 MQTTSNGateway/src/MQTTSNGWAggregater.h       |  2 +-
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp |  7 +++--
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h   |  2 +-
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 27 ++++++++++++++++++++
 8 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 2e9eb63..87f0384 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -318,7 +318,8 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 {
     uint16_t msgId = packet->getMsgId();
     uint16_t clientMsgId = 0;
-    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
+    /* PUBREL and PUBCOMP follow PUBREC */
+    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId, type == PUBREC);
     if (newClient != nullptr)
     {
         packet->setMsgId((int) clientMsgId);
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
index 9a72a70..eb77ba2 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
@@ -173,9 +173,9 @@ void AdapterManager::checkConnection(void)
     }
 }
 
-Client* AdapterManager::convertClient(uint16_t msgId, uint16_t* clientMsgId)
+Client* AdapterManager::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool keep)
 {
-    return _aggregater->convertClient(msgId, clientMsgId);
+    return _aggregater->convertClient(msgId, clientMsgId, keep);
 }
 
 bool AdapterManager::isAggregaterActive(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.h b/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
index 42674be..24d63ae 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
@@ -48,7 +48,7 @@ public:
 
     bool isAggregatedClient(Client* client);
     Client* getClient(Client* client);
-    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool keep = false);
     int unicastToClient(Client* client, MQTTSNPacket* packet,
             ClientSendTask* task);
     bool isAggregaterActive(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 17da79f..4dba738 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -59,9 +59,9 @@ uint16_t Aggregater::msgId(void)
     return Adapter::getSecureClient()->getNextPacketId();
 }
 
-Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId)
+Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool keep)
 {
-    return _msgIdTable.getClientMsgId(msgId, clientMsgId);
+    return _msgIdTable.getClientMsgId(msgId, clientMsgId, keep);
 }
 
 uint16_t Aggregater::addMessageIdTable(Client* client, uint16_t msgId)
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 490b71f..ed21306 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -45,7 +45,7 @@ public:
 
     const char* getClientId(SensorNetAddress* addr);
     Client* getClient(SensorNetAddress* addr);
-    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool keep = false);
     uint16_t addMessageIdTable(Client* client, uint16_t msgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 40e567a..789aa71 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -115,7 +115,7 @@ MessageIdElement* MessageIdTable::find(Client* client, uint16_t clientMsgId)
     return p;
 }
 
-Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
+Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool keep)
 {
     Client* clt = nullptr;
     *clientMsgId = 0;
@@ -125,7 +125,10 @@ Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
     {
         clt = p->_client;
         *clientMsgId = p->_clientMsgId;
-        clear(p);
+        if (!keep)
+        {
+            clear(p);
+        }
     }
     _mutex.unlock();
     return clt;
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index 2f0b5e6..e5b122d 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -39,7 +39,7 @@ public:
 
     MessageIdElement* add(Aggregater* aggregater, Client* client,
             uint16_t clientMsgId);
-    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
+    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool keep = false);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index f46df9f..a9b8c4d 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -321,4 +321,31 @@ void MQTTSNPublishHandler::handleAggregateAck(Client* client, MQTTSNPacket* pack
         ev->setClientSendEvent(client, ackPacket);
         _gateway->getClientSendQue()->post(ev);
     }
+    else if (type == MQTTSN_PUBREL)
+    {
+        uint16_t msgId;
+
+        if (packet->getACK(&msgId) == 0)
+        {
+            return;
+        }
+
+        uint16_t brokerMsgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, msgId);
+        Event* ev = new Event();
+        if (brokerMsgId > 0)
+        {
+            MQTTGWPacket* pubRel = new MQTTGWPacket();
+            pubRel->setAck(PUBREL, brokerMsgId);
+            ev->setBrokerSendEvent(client, pubRel);
+            _gateway->getBrokerSendQue()->post(ev);
+        }
+        else
+        {
+            /* the broker has already completed the message */
+            MQTTSNPacket* pubComp = new MQTTSNPacket();
+            pubComp->setPUBCOMP(msgId);
+            ev->setClientSendEvent(client, pubComp);
+            _gateway->getClientSendQue()->post(ev);
+        }
+    }
 }
-- 
2.43.0


From bd9af35f45a4c71ba5ddc7b94d40ea0bd674d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:49 +0000
Subject: [PATCH 64/69] fix: aggregate the subscriptions of the same topic
 filter only

A filter was merged with another one it matches, so the client missed messages
or unsubscribed others, and a message was sent only to the clients of the first
filter it matches.  The names of erased filters leaked.
---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 13 ++++++++-
 .../src/MQTTSNGWAggregateTopicTable.cpp       | 29 +++++++++++++++++--
 .../src/MQTTSNGWAggregateTopicTable.h         |  2 ++
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      |  5 ++++
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  1 +
 5 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 87f0384..660d8a7 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -351,7 +351,9 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
     // ToDo: need to refactor
-    ClientTopicElement* elm = _gateway->getAdapterManager()->getAggregater()->getClientElement(&topic);
+    Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();
+    AggregateTopicElement* elmTopic = aggregater->findTopic(&topic);
+    ClientTopicElement* elm = elmTopic != nullptr ? elmTopic->getFirstClientTopicElement() : nullptr;
 
     while (elm != nullptr)
     {
@@ -372,6 +374,15 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
         _gateway->getPacketEventQue()->post(ev);
 
         elm = elm->getNextClientElement();
+        if (elm == nullptr)
+        {
+            /* other filters may match, too */
+            elmTopic = aggregater->findNextTopic(elmTopic, &topic);
+            if (elmTopic != nullptr)
+            {
+                elm = elmTopic->getFirstClientTopicElement();
+            }
+        }
     }
 
     /* the broker waits for one acknowledgement only */
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index d07d2bf..dcb29d4 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -72,6 +72,7 @@ AggregateTopicElement::~AggregateTopicElement(void)
         }
         _head = _tail = nullptr;
     }
+    delete _topic;
     _mutex.unlock();
 }
 
@@ -185,7 +186,7 @@ AggregateTopicElement* AggregateTopicTable::add(Topic* topic, Client* client)
 {
     AggregateTopicElement* elm = nullptr;
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
     if (elm != nullptr)
     {
         if (elm->find(client) == nullptr)
@@ -218,7 +219,7 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     AggregateTopicElement* elm = nullptr;
 
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
 
     if (elm != nullptr)
     {
@@ -262,10 +263,32 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
     }
 }
 
-AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topic)
+/* the subscription to a topic filter */
+AggregateTopicElement* AggregateTopicTable::find(Topic* topic)
 {
     AggregateTopicElement* elm = _head;
 
+    while (elm != nullptr)
+    {
+        if (elm->_topic->_topicName->compare(*topic->_topicName) == 0)
+        {
+            break;
+        }
+        elm = elm->_next;
+    }
+    return elm;
+}
+
+/* the subscriptions a topic name matches */
+AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topic)
+{
+    return getNextAggregateTopicElement(nullptr, topic);
+}
+
+AggregateTopicElement* AggregateTopicTable::getNextAggregateTopicElement(AggregateTopicElement* elmTopic, Topic* topic)
+{
+    AggregateTopicElement* elm = elmTopic != nullptr ? elmTopic->_next : _head;
+
     while (elm != nullptr)
     {
         if (elm->_topic->isMatch(topic->_topicName))
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 6293c0d..914d04c 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -40,6 +40,7 @@ public:
 
     AggregateTopicElement* add(Topic* topic, Client* client);
     AggregateTopicElement* getAggregateTopicElement(Topic* topic);
+    AggregateTopicElement* getNextAggregateTopicElement(AggregateTopicElement* elmTopic, Topic* topic);
     ClientTopicElement* getClientElement(Topic* topic);
     void erase(Topic* topic, Client* client);
     void clear(void);
@@ -47,6 +48,7 @@ public:
     void print(void);
 
 private:
+    AggregateTopicElement* find(Topic* topic);
     void erase(AggregateTopicElement* elmTopic);
     Mutex _mutex;
     AggregateTopicElement* _head { nullptr };
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 4dba738..c43a649 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -99,6 +99,11 @@ AggregateTopicElement* Aggregater::findTopic(Topic* topic)
     return _topicTable.getAggregateTopicElement(topic);
 }
 
+AggregateTopicElement* Aggregater::findNextTopic(AggregateTopicElement* elmTopic, Topic* topic)
+{
+    return _topicTable.getNextAggregateTopicElement(elmTopic, topic);
+}
+
 ClientTopicElement* Aggregater::getClientElement(Topic* topic)
 {
     AggregateTopicElement* elm = findTopic(topic);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index ed21306..8c719a5 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -54,6 +54,7 @@ public:
     Client* getClient(ClientTopicElement* clientElement);
 
     AggregateTopicElement* findTopic(Topic* topic);
+    AggregateTopicElement* findNextTopic(AggregateTopicElement* elmTopic, Topic* topic);
     AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client);
 
     void removeAggregateTopic(Topic* topic, Client* client);
-- 
2.43.0


From 7c43cb293cc4c05ae1673234602efbe0cffb5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:26 +0000
Subject: [PATCH 65/69] fix: keep subscriptions which other aggregated clients
 need

An UNSUBSCRIBE of one client ended the aggregater's subscription, and with it
those of all the other clients to the same topic filter.
---
 .../src/MQTTSNGWAggregateTopicTable.h         |  2 +-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      |  5 +++++
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  1 +
 .../src/MQTTSNGWSubscribeHandler.cpp          | 22 ++++++++++++++-----
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 914d04c..32b0346 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -39,6 +39,7 @@ public:
     ~AggregateTopicTable();
 
     AggregateTopicElement* add(Topic* topic, Client* client);
+    AggregateTopicElement* find(Topic* topic);
     AggregateTopicElement* getAggregateTopicElement(Topic* topic);
     AggregateTopicElement* getNextAggregateTopicElement(AggregateTopicElement* elmTopic, Topic* topic);
     ClientTopicElement* getClientElement(Topic* topic);
@@ -48,7 +49,6 @@ public:
     void print(void);
 
 private:
-    AggregateTopicElement* find(Topic* topic);
     void erase(AggregateTopicElement* elmTopic);
     Mutex _mutex;
     AggregateTopicElement* _head { nullptr };
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index c43a649..9228a43 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -94,6 +94,11 @@ void Aggregater::removeAggregateTopic(Topic* topic, Client* client)
     _topicTable.erase(topic, client);
 }
 
+bool Aggregater::isSubscribed(Topic* topic)
+{
+    return _topicTable.find(topic) != nullptr;
+}
+
 AggregateTopicElement* Aggregater::findTopic(Topic* topic)
 {
     return _topicTable.getAggregateTopicElement(topic);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 8c719a5..1ac9824 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -58,6 +58,7 @@ public:
     AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client);
 
     void removeAggregateTopic(Topic* topic, Client* client);
+    bool isSubscribed(Topic* topic);
     void removeAggregateAllTopic(Client* client);
     bool isActive(void);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index fc958cd..8180013 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -252,6 +252,23 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
     MQTTGWPacket* unsubscribe = handleUnsubscribe(client, packet);
     if (unsubscribe != nullptr)
     {
+        UTF8String str = unsubscribe->getTopic();
+        string* topicName = new string(str.data, str.len); // topicName is delete by topic
+        Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
+        _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(&topic, client);
+
+        if (_gateway->getAdapterManager()->getAggregater()->isSubscribed(&topic))
+        {
+            /* other clients still need the subscription */
+            MQTTSNPacket* unsuback = new MQTTSNPacket();
+            unsuback->setUNSUBACK(packet->getMsgId());
+            Event* evunsuback = new Event();
+            evunsuback->setClientSendEvent(client, unsuback);
+            _gateway->getClientSendQue()->post(evunsuback);
+            delete unsubscribe;
+            return;
+        }
+
         int msgId = 0;
         if (packet->isDuplicate())
         {
@@ -270,11 +287,6 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
             return;
         }
 
-        UTF8String str = unsubscribe->getTopic();
-        string* topicName = new string(str.data, str.len); // topicName is delete by topic
-        Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
-        _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(&topic, client);
-
         unsubscribe->setMsgId(msgId);
         Event* ev = new Event();
         ev->setBrokerSendEvent(client, unsubscribe);
-- 
2.43.0


From 093f578c56e4982a833e76fa015ae98674a81238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:49 +0000
Subject: [PATCH 66/69] fix: keep the lists of aggregated subscriptions linked
 when an element in the middle is erased

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index dcb29d4..356b46e 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -157,6 +157,7 @@ void AggregateTopicElement::eraseClient(Client* client)
         else if (p->_next != nullptr)  // middle
         {
             p->_prev->_next = p->_next;
+            p->_next->_prev = p->_prev;
         }
         else    // tail
         {
@@ -253,6 +254,7 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
         else if (elmTopic->_next != nullptr)  // middle
         {
             elmTopic->_prev->_next = elmTopic->_next;
+            elmTopic->_next->_prev = elmTopic->_prev;
         }
         else    // tail
         {
-- 
2.43.0


From a12a9041a6d1036d3ddbab8492a97a1a67d22ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:30 +0000
Subject: [PATCH 67/69] fix: send messages of aggregated clients whose message
 id is still in use

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 789aa71..3714f56 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -79,8 +79,9 @@ MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, ui
         }
         else
         {
+            /* the client uses the id of an unfinished exchange again */
             delete elm;
-            elm = nullptr;
+            elm = p;
         }
     }
     _mutex.unlock();
-- 
2.43.0


From 606163d4c376468539e3a627e365ed695e5befbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:16 +0000
Subject: [PATCH 68/69] fix: match the parent level of a filter that ends with
 +/#

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 25b1dab..2d8139f 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -148,7 +148,7 @@ bool Topic::isMatch(string* topicName)
         {
             string subtopic = topicName->substr(pos);
             string subtopict = _topicName->substr(tpos, tloc - tpos);
-            if (subtopic != subtopict)
+            if (subtopict != wildcards && subtopic != subtopict)
             {
                 return false;
             }
-- 
2.43.0


From ff88728d951f4d121aefc9883e28dc1284a5552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:25 +0000
Subject: [PATCH 69/69] fix: do not use a message id which an unfinished
 exchange of another aggregated client has

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 3714f56..1a8c816 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -70,7 +70,10 @@ MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, ui
         MessageIdElement* p = find(client, clientMsgId);
         if (p == nullptr)
         {
-            elm->_msgId = aggregater->msgId();
+            do
+            {
+                elm->_msgId = aggregater->msgId();
+            } while (find(elm->_msgId) != nullptr);   /* still in use after the ids have wrapped */
             p = _tail;
             _tail = elm;
             elm->_prev = p;
-- 
2.43.0

