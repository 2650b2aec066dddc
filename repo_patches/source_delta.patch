From d09d5450b0d73475dc5981a02003b9ad5cc183bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:29 +0000
Subject: [PATCH 01/24] fix: MODE learn on/off is only for the addressed node

---
 src/EventTeachingService.cpp | 10 ++++++++--
 src/EventTeachingService.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index aec6cab..33549f5 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -45,7 +45,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   {
   case OPC_MODE:
     // 76 - Set Operating Mode
-    handleLearnMode(msg);
+    handleLearnMode(msg, nn);
     break;
 
   case OPC_NNLRN:
@@ -111,9 +111,15 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   }
 }
 
-void EventTeachingService::handleLearnMode(const VlcbMessage *msg)
+void EventTeachingService::handleLearnMode(const VlcbMessage *msg, unsigned int nn)
 {
   //DEBUG_SERIAL << F("ets> MODE -- request op-code received for NN = ") << nn << endl;
+  if (!isThisNodeNumber(nn) || msg->len < 4)
+  {
+    // Not for this module or incomplete.
+    return;
+  }
+
   byte requestedMode = msg->data[3];
   switch (requestedMode)
   {
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 0b6ddf4..55e2ba1 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -28,7 +28,7 @@ private:
   bool bLearn = false;
 
   void handleMessage(const VlcbMessage *msg);
-  void handleLearnMode(const VlcbMessage *msg);
+  void handleLearnMode(const VlcbMessage *msg, unsigned int nn);
   void handleLearn(unsigned int nn);
   void handleUnlearnEvent(const VlcbMessage *msg, unsigned int nn, unsigned int en);
   void handleUnlearn(unsigned int nn);
-- 
2.43.0


From e0f1db526c21bba72ab7e0d27c386b4e252c27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 02/24] fix: refuse to write node variable 0

---
 src/NodeVariableService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NodeVariableService.cpp b/src/NodeVariableService.cpp
index bab8fff..4656311 100644
--- a/src/NodeVariableService.cpp
+++ b/src/NodeVariableService.cpp
@@ -90,7 +90,7 @@ void NodeVariableService::handleSetNV(const VlcbMessage *msg, unsigned int nn)
     }
 
     Configuration *module_config = controller->getModuleConfig();
-    if (msg->data[3] > module_config->EE_NUM_NVS)
+    if (msg->data[3] == 0 || msg->data[3] > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
@@ -120,7 +120,7 @@ void NodeVariableService::handleSetAndReadNV(const VlcbMessage *msg, unsigned in
 
     byte nvindex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
-    if (nvindex > module_config->EE_NUM_NVS)
+    if (nvindex == 0 || nvindex > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSETRD, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
-- 
2.43.0


From 1ec1bb429c35d10a6db70aefd67d5d9739ae5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 03/24] fix: store NN and EN when a new event is taught
 starting with EV2 or higher

---
 src/EventTeachingService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 33549f5..270c841 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -460,8 +460,8 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // write the event to EEPROM at this location -- EVs are indexed from 1 but storage offsets start at zero !!
   // DEBUG_SERIAL << F("ets> writing EV = ") << evnum << F(", at index = ") << index << F(", offset = ") << (module_config->EE_EVENTS_START + (index * module_config->EE_BYTES_PER_EVENT)) << endl;
 
-  // don't repeat this for subsequent EVs
-  if (evnum <= 1)
+  // don't repeat this for subsequent EVs of an event that is already stored
+  if (evnum <= 1 || module_config->getEvTableEntry(index) == 0)
   {
     module_config->writeEvent(index, &msg->data[1]);
   }
-- 
2.43.0


From 43c5a5b963ea70919cdfabaf99db47ee705a9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:31 +0000
Subject: [PATCH 04/24] fix: do not find unlearned events by event variable
 value

---
 src/Configuration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 74cec09..d0cd2dc 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -182,7 +182,9 @@ byte Configuration::findExistingEventByEv(byte evnum, byte evval) const
   byte i;
   for (i = 0; i < EE_MAX_EVENTS; i++)
   {
-    if (getEventEVval(i, evnum) == evval)
+    byte tarr[EE_HASH_BYTES];
+    readEvent(i, tarr);
+    if (!nnenEquals(tarr, unused_entry) && getEventEVval(i, evnum) == evval)
     {
       break;
     }
-- 
2.43.0


From 552f53fec8392b84408f411f49c9be070c446afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:31 +0000
Subject: [PATCH 05/24] fix: clear event variables when an event is removed

---
 src/Configuration.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index d0cd2dc..bc68b55 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -416,6 +416,11 @@ void Configuration::writeEvent(byte index, const byte data[EE_HASH_BYTES])
 void Configuration::cleareventEEPROM(byte index)
 {
   // DEBUG_SERIAL << F("> clearing event at index = ") << index << endl;
+  // Clear the event variables first so that a free entry never holds variables of an old event.
+  for (byte i = 1; i <= EE_NUM_EVS; i++)
+  {
+    writeEventEV(index, i, 0xff);
+  }
   writeEvent(index, unused_entry);
 }
 
-- 
2.43.0


From 02a44b5504a68e5be0650d507a2ce25b0746293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:31 +0000
Subject: [PATCH 06/24] fix: NENRD for an empty entry is an invalid index

---
 src/EventTeachingService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 270c841..c5cbacb 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -251,7 +251,7 @@ void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex
   if (isThisNodeNumber(nn))
   {
     Configuration *module_config = controller->getModuleConfig();
-    if ((eventIndex >= module_config->EE_MAX_EVENTS) && (module_config->getEvTableEntry(eventIndex) == 0))
+    if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
       controller->sendCMDERR(CMDERR_INV_EN_IDX);
       controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_EN_IDX);
-- 
2.43.0


From dedc6b286493da561593b23482f3080bfd25d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:33 +0000
Subject: [PATCH 07/24] fix: initialise the request event handler

---
 src/EventProducerService.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 9cd78d5..528c220 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -37,7 +37,7 @@ public:
   
 
 private:
-  void (*requesteventhandler)(byte index, const VlcbMessage *msg);
+  void (*requesteventhandler)(byte index, const VlcbMessage *msg) = nullptr;
   void handleProdSvcMessage(const VlcbMessage *msg);
   
   void setProducedEvents();
-- 
2.43.0


From e3bf485df8013bb27a09de163c6a93145a2db8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 08/24] fix: do not create or send a default event when the
 event table is full

---
 src/EventProducerService.cpp | 41 +++++++++++++++++++++++++-----------
 src/EventProducerService.h   |  2 +-
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 986cf17..74c063e 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -47,6 +47,11 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   
   byte index = module_config->findEventSpace();
   //TODO: Consider full event table error message. Should error come from Configuration?
+  if (index >= module_config->EE_MAX_EVENTS)
+  {
+    // No space for this event.
+    return index;
+  }
   
   // Find next available event number.
   unsigned int eventNum;
@@ -92,7 +97,7 @@ void EventProducerService::process(const Action * action)
   }
 }
 
-void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
+bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
 {
   Configuration *module_config = controller->getModuleConfig();
   byte index = module_config->findExistingEventByEv(evIndex, evValue);
@@ -101,15 +106,15 @@ void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
     index = createDefaultEvent(evValue);
   }
 
-  module_config->readEvent(index, nn_en);
-  //DEBUG_SERIAL << F("eps>index = ") << index << F(" , Node Number = 0x") << _HEX(nn_en[0]) << _HEX(nn_en[1]) << endl;
-  if ((nn_en[0] == 0xff) && (nn_en[1] == 0xff))
+  if (index >= module_config->EE_MAX_EVENTS)
   {
-    // This table entry was not initalised correctly.
-    // This may happen if an event is deleted but the hash table is not updated.
-    index = createDefaultEvent(evValue);
-    module_config->readEvent(index, nn_en);
+    // The event table is full.
+    return false;
   }
+
+  module_config->readEvent(index, nn_en);
+  //DEBUG_SERIAL << F("eps>index = ") << index << F(" , Node Number = 0x") << _HEX(nn_en[0]) << _HEX(nn_en[1]) << endl;
+  return true;
 }
 
 void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en)
@@ -125,7 +130,10 @@ void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte
 void EventProducerService::sendEvent(bool state, byte evValue)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -147,7 +155,10 @@ void EventProducerService::sendEvent(bool state, byte evValue)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -170,7 +181,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -194,7 +208,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2, byte data3)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 528c220..5249ba0 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -42,7 +42,7 @@ private:
   
   void setProducedEvents();
   byte createDefaultEvent(byte evValue);
-  void findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
+  bool findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
   void sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en);
 
   bool uninit = false;
-- 
2.43.0


From ddace3dc9223b97af5668b5efc38c80aec8202a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 09/24] fix: ignore truncated reset and clear requests

---
 src/EventTeachingService.cpp | 5 ++++-
 src/MinimumNodeService.cpp   | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index c5cbacb..c1b757b 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -86,7 +86,10 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
 
   case OPC_NNCLR:
     // 55 - clear all stored events
-    handleClearEvents(nn);
+    if (msg->len >= 3)
+    {
+      handleClearEvents(nn);
+    }
     break;
 
   case OPC_NNEVN:
diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 326410c..424d027 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -240,7 +240,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
 
     case OPC_NNRSM:
       //4F - reset to manufacturer's defaults 
-      if (isThisNodeNumber(nn))
+      if (msg->len >= 3 && isThisNodeNumber(nn))
       {        
         controller->sendMessageWithNN(OPC_NNREL);  // release node number first
         module_config->resetModule();        
@@ -249,7 +249,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       
     case OPC_NNRST:
       //5E - software reset
-      if (isThisNodeNumber(nn))
+      if (msg->len >= 3 && isThisNodeNumber(nn))
       {
         module_config->reboot();
       }
-- 
2.43.0


From 43d4dde9b724d7b014a61346ee1586b17d07e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 10/24] fix: ignore truncated enumeration requests

---
 src/CanService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CanService.cpp b/src/CanService.cpp
index d13cb83..fb613d1 100644
--- a/src/CanService.cpp
+++ b/src/CanService.cpp
@@ -55,6 +55,12 @@ void CanService::handleCanServiceMessage(const VlcbMessage *msg)
   unsigned int opc = msg->data[0];
   unsigned int nn = (msg->data[1] << 8) + msg->data[2];
 
+  if (msg->len < 3)
+  {
+    // Incomplete message, there is no node number.
+    return;
+  }
+
   switch (opc)
   {
     case OPC_CANID:
-- 
2.43.0


From 5e36a932cb7dbcde1b4904f0990601351b48355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 11/24] fix: long message receiver counts only fragments of its
 own stream and wraps the sequence number

---
 src/LongMessageService.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 23eb939..e4fa89e 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -152,8 +152,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
 
 	// DEBUG_SERIAL << F("> L: processing received long message packet, message length = ") << _incoming_message_length << F(", rcvd so far = ") << _incoming_bytes_received << endl;
 
-	_last_fragment_received = millis();
-
 	byte i, j;
 
   if (!_is_receiving)
@@ -181,7 +179,8 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
             _incoming_bytes_received = 0;
             memset(_receive_buffer, 0, _receive_buffer_len);
             _receive_buffer_index = 0;
-            _expected_next_receive_sequence_num = 0;
+            _expected_next_receive_sequence_num = 1;
+            _last_fragment_received = millis();
             // DEBUG_SERIAL << F("> L: received header packet for stream id = ") << _receive_stream_id << F(", message length = ") << _incoming_message_length << F(", user buffer len = ") << _receive_buffer_len << endl;
             break;
           }
@@ -204,8 +203,13 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     {
       // it's the same stream id
 
-      if (frame->data[2] == _expected_next_receive_sequence_num)
+      _last_fragment_received = millis();
+
+      // the sequence number may wrap from 255 to 0, which is absolutely fine
+      if (frame->data[2] == (_expected_next_receive_sequence_num & 0xFF))
       {
+        ++_expected_next_receive_sequence_num;
+
         // and it's the expected sequence id
 
         // DEBUG_SERIAL << F("> L: received continuation packet, seq = ") << _expected_next_receive_sequence_num << endl;
@@ -261,9 +265,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     }
 	}	// it's a continuation fragment
 
-	// the sequence number may wrap from 255 to 0, which is absolutely fine
-	++_expected_next_receive_sequence_num;
-
 	/// finally, once the message has been completely received ...
 
 	if (_incoming_message_length > 0 && _incoming_bytes_received >= _incoming_message_length)
-- 
2.43.0


From 9eab8dcc3a89e84af6fcb769fe6cbb870d33aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 12/24] fix: refuse a long message when all send contexts are
 in use

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index e4fa89e..b1562b8 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -418,7 +418,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 		}
 	}
 
-	if (i > _num_send_contexts)
+	if (i >= _num_send_contexts)
   {
 		// DEBUG_SERIAL << F("> Lex: ERROR: unable to find free send context") << endl;
 		return false;
-- 
2.43.0


From d71f0f27bcbfacf24fa53cb365034d648bd5e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:20 +0000
Subject: [PATCH 13/24] fix: copy the whole long message, it may contain zero
 bytes

---
 src/LongMessageService.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index b1562b8..ea12f39 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -427,9 +427,14 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	// DEBUG_SERIAL << F("> Lex: using send context = ") << i << endl;
 
 	// initialise context
-	_send_context[i]->in_use = true;
 	// _send_context[i]->buffer = (byte *)msg;
-	_send_context[i]->buffer = (byte *)strdup((char *)msg);														// copy the message to the send content, will free later
+	_send_context[i]->buffer = (byte *)malloc(msg_len > 0 ? msg_len : 1);										// copy the message to the send content, will free later
+	if (_send_context[i]->buffer == NULL)
+  {
+		return false;
+	}
+	memcpy(_send_context[i]->buffer, msg, msg_len);
+	_send_context[i]->in_use = true;
 	_send_context[i]->send_buffer_len = msg_len;
 	_send_context[i]->send_stream_id = stream_id;
   _send_context[i]->send_buffer_index = 0;
-- 
2.43.0


From c20ffb2a2d0849dcbbd693bbb56f0b6d296a1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:20 +0000
Subject: [PATCH 14/24] fix: initialise the time of the last sent fragment

---
 src/LongMessageService.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index ea12f39..62ca350 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -380,6 +380,7 @@ bool LongMessageServiceEx::allocateContexts(byte num_receive_contexts, unsigned
 		}
 
 		_send_context[i]->in_use = false;
+		_send_context[i]->last_fragment_sent = 0;
 	}
 
 	// DEBUG_SERIAL << F("> Lex: allocated send and receive contexts ok") << endl;
-- 
2.43.0


From 6f12847293d76ac251a27d8958242b836403a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:20 +0000
Subject: [PATCH 15/24] fix: report CRC errors only when CRC checking is
 enabled

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 62ca350..c20cedb 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -680,7 +680,7 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
           tmpcrc = crc16((uint8_t *) _receive_context[i]->buffer, _receive_context[i]->receive_buffer_index);
         }
 
-        if (_receive_context[i]->incoming_message_crc != tmpcrc)
+        if (_use_crc && _receive_context[i]->incoming_message_crc != tmpcrc)
         {
           // DEBUG_SERIAL << F("> Lex: message CRC error, expected = ") << _receive_context[i]->incoming_message_crc << F(", calculated = ") << tmpcrc << endl;
           status = LONG_MESSAGE_CRC_ERROR;
-- 
2.43.0


From 105a5c525ec265b822858871ce1733b7484624c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:21 +0000
Subject: [PATCH 16/24] fix: extended long message receiver handles more than
 255 fragments

---
 src/LongMessageService.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index c20cedb..06a4f32 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -572,7 +572,18 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 	// DEBUG_SERIAL << F("> Lex: handling incoming message fragment") << endl;
 	// DEBUG_SERIAL.flush();
 
-  if (frame->data[2] == 0)
+  // sequence zero may also be a continuation of a stream whose sequence number has wrapped from 255 to 0
+  bool wrapped = false;
+  for (i = 0; i < _num_receive_contexts; i++)
+  {
+    if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1])
+    {
+      wrapped = (_receive_context[i]->expected_next_receive_sequence_num & 0xFF) == 0;
+      break;
+    }
+  }
+
+  if (frame->data[2] == 0 && !wrapped)
   {
     // sequence zero = a header packet with start of new stream
 
@@ -651,7 +662,7 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
     }
 
     // error if out of sequence
-    if (frame->data[2] != _receive_context[i]->expected_next_receive_sequence_num)
+    if (frame->data[2] != (_receive_context[i]->expected_next_receive_sequence_num & 0xFF))
     {
       // DEBUG_SERIAL << F("> Lex: ERROR: expected receive sequence num = ") << _receive_context[i]->expected_next_receive_sequence_num << F(" but got = ") << frame->data[2] << endl;
       (void) (*_messagehandler)(_receive_context[i]->buffer, _receive_context[i]->receive_buffer_index,
-- 
2.43.0


From fcb8d5c149c241f0b37ff81f65ce68c94632be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:06 +0000
Subject: [PATCH 17/24] fix: flash storage writes that cross a page boundary

---
 src/FlashStorage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d24cf70..1b5771b 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -215,7 +215,8 @@ bool flash_write_bytes(const uint16_t address, const uint8_t *data, const uint16
       buffer_index = 0;                                 // set cache buffer index to zero
     }
 
-    cache_page.data[buffer_index + a] = data[a];
+    cache_page.data[buffer_index] = data[a];
+    ++buffer_index;
   }
 
   // set page dirty flag
-- 
2.43.0


From d753f62ef0e870f24a5c51a670f0c094d9fe4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:07 +0000
Subject: [PATCH 18/24] fix: external EEPROM writes that cross a page boundary

---
 src/EepromExternalStorage.cpp | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/EepromExternalStorage.cpp b/src/EepromExternalStorage.cpp
index 24093ec..bfbd4b0 100644
--- a/src/EepromExternalStorage.cpp
+++ b/src/EepromExternalStorage.cpp
@@ -10,6 +10,8 @@
 namespace VLCB
 {
 
+static const unsigned int EEPROM_PAGE_SIZE = 64;
+
 EepromExternalStorage::EepromExternalStorage(byte address)
 {
   external_address = address;
@@ -120,22 +122,30 @@ void EepromExternalStorage::writeBytes(unsigned int eeaddress, const byte src[],
 {
   // *** TODO *** handle greater than 32 bytes -> the Arduino I2C write buffer size
   // max write = EEPROM pagesize - 64 bytes
+  // A write that goes beyond the end of a page wraps around to the start of that page, so split at page boundaries.
 
-  I2Cbus->beginTransmission(external_address);
-  I2Cbus->write((int) (eeaddress >> 8));   // MSB
-  I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
-
-  for (byte i = 0; i < numbytes; i++)
-  {
-    I2Cbus->write(src[i]);
-  }
-
-  int r = I2Cbus->endTransmission();
-  delay(5);
-
-  if (r < 0)
+  byte i = 0;
+  while (i < numbytes)
   {
-    // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    I2Cbus->beginTransmission(external_address);
+    I2Cbus->write((int) (eeaddress >> 8));   // MSB
+    I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
+
+    do
+    {
+      I2Cbus->write(src[i]);
+      ++i;
+      ++eeaddress;
+    }
+    while (i < numbytes && (eeaddress % EEPROM_PAGE_SIZE) != 0);
+
+    int r = I2Cbus->endTransmission();
+    delay(5);
+
+    if (r < 0)
+    {
+      // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    }
   }
 }
 
-- 
2.43.0


From 71080e78749cd94a21ab56d082e2c5e04640783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:07 +0000
Subject: [PATCH 19/24] fix: reset erases the Due flash storage

---
 src/DueEepromEmulationStorage.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/DueEepromEmulationStorage.cpp b/src/DueEepromEmulationStorage.cpp
index fdcaf75..5e9969f 100644
--- a/src/DueEepromEmulationStorage.cpp
+++ b/src/DueEepromEmulationStorage.cpp
@@ -90,7 +90,18 @@ void DueEepromEmulationStorage::setChipEEPROMVal(unsigned int eeaddress, byte va
 //
 void DueEepromEmulationStorage::reset()
 {
+#ifdef __SAM3X8E__
+  byte erased[64];
+  memset(erased, 0xff, sizeof(erased));
 
+  unsigned int addr = 10;
+  while (addr < 4096)
+  {
+    unsigned int len = sizeof(erased) - (addr % sizeof(erased));
+    dueFlashStorage.write(addr, erased, len);
+    addr += len;
+  }
+#endif
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 228e0854295ab2699c17ad1edfacf3727baa61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:02 +0000
Subject: [PATCH 20/24] fix: listing 255 node variables does not end

---
 src/SerialUserInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialUserInterface.cpp b/src/SerialUserInterface.cpp
index b3a52e1..af95525 100644
--- a/src/SerialUserInterface.cpp
+++ b/src/SerialUserInterface.cpp
@@ -111,7 +111,7 @@ void SerialUserInterface::processSerialInput()
         Serial << F("   NV   Val") << endl;
         Serial << F("  --------------------") << endl;
 
-        for (byte j = 1; j <= modconfig->EE_NUM_NVS; j++)
+        for (int j = 1; j <= modconfig->EE_NUM_NVS; j++)
         {
           byte v = modconfig->readNV(j);
           sprintf(msgstr, " - %02d : %3hd | 0x%02hx", j, v, v);
-- 
2.43.0


From 3fdca4b3d187e1068c665667d29ec88ed1168822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:03 +0000
Subject: [PATCH 21/24] fix: CAN transport reset keeps the polling mode and SPI
 bus it was started with

---
 src/CAN2515.cpp | 3 ++-
 src/CAN2515.h   | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index 86fddef..519744d 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -42,6 +42,7 @@ bool CAN2515::begin(bool poll, SPIClass & spi)
   _numMsgsSent = 0;
   _numMsgsRcvd = 0;
   _poll = poll;
+  _spi = &spi;
 
   ACAN2515Settings settings(_osc_freq, CANBITRATE);
 
@@ -185,7 +186,7 @@ void CAN2515::reset()
 {
   canp->end();
   delete canp;
-  begin();
+  begin(_poll, *_spi);
 }
 
 //
diff --git a/src/CAN2515.h b/src/CAN2515.h
index 547b355..f866601 100644
--- a/src/CAN2515.h
+++ b/src/CAN2515.h
@@ -73,6 +73,12 @@ private:
   byte _num_rx_buffers, _num_tx_buffers;
   bool _poll;
 
+#ifdef ARDUINO_ARCH_RP2040
+  SPIClassRP2040 * _spi;
+#else
+  SPIClass * _spi;
+#endif
+
 #ifdef ARDUINO_ARCH_RP2040
   byte _mosi_pin, _miso_pin, _sck_pin;
 #endif
-- 
2.43.0


From d50fdbda1fbde71db95290ceda32d7bbc26a23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:23 +0000
Subject: [PATCH 22/24] fix: send the node number release before a factory
 reset restarts the module

---
 src/MinimumNodeService.cpp | 8 +++++++-
 src/MinimumNodeService.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 424d027..246e557 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -154,6 +154,11 @@ void MinimumNodeService::process(const Action *action)
           break;
     }
   }
+  else if (resetPending)
+  {
+    resetPending = false;
+    controller->getModuleConfig()->resetModule();
+  }
 
   heartbeat();
 }
@@ -243,7 +248,8 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       if (msg->len >= 3 && isThisNodeNumber(nn))
       {        
         controller->sendMessageWithNN(OPC_NNREL);  // release node number first
-        module_config->resetModule();        
+        // The reset restarts the module. Do it when the release message has left the action queue.
+        resetPending = true;
       }
       break;
       
diff --git a/src/MinimumNodeService.h b/src/MinimumNodeService.h
index 87622bd..1b2bc39 100644
--- a/src/MinimumNodeService.h
+++ b/src/MinimumNodeService.h
@@ -44,6 +44,7 @@ private:
   unsigned long lastHeartbeat = 0;
   byte heartbeatSequence = 0;
   bool noHeartbeat = false;
+  bool resetPending = false;
   unsigned int heartRate = 5000;
 
   void handleRequestNodeParameters();
-- 
2.43.0


From b651679d7baa2c4f21f092d571205c2eb9bb8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:09 +0000
Subject: [PATCH 23/24] fix: a new header ends the long message in progress on
 the same stream

---
 src/LongMessageService.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 06a4f32..87f5f19 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -601,6 +601,17 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 
           // DEBUG_SERIAL << F("> Lex: we are subscribed to this stream ID = ") << frame->data[1] << endl;
 
+          // a header for a stream that is still being received means that the rest of that message will not come
+          for (i = 0; i < _num_receive_contexts; i++)
+          {
+            if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1])
+            {
+              (void) (*_messagehandler)(_receive_context[i]->buffer, _receive_context[i]->receive_buffer_index,
+                                        _receive_context[i]->receive_stream_id, LONG_MESSAGE_SEQUENCE_ERROR);
+              _receive_context[i]->in_use = false;
+            }
+          }
+
           // find a free receive context
           for (i = 0; i < _num_receive_contexts; i++)
           {
-- 
2.43.0


From 926a90d66ea95d4454fce2702a7c618017dd16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 24/24] fix: high-water mark of circular buffers with more than
 127 entries

---
 src/CircularBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CircularBuffer.h b/src/CircularBuffer.h
index ba4bc4b..e9d8454 100644
--- a/src/CircularBuffer.h
+++ b/src/CircularBuffer.h
@@ -133,7 +133,7 @@ void CircularBuffer<E>::clear()
 template <typename E>
 uint8_t CircularBuffer<E>::bufUse()
 {
-  int8_t size = capacity;
+  int size = capacity;
   if (!full)
   {
     size = head - tail;
-- 
2.43.0

