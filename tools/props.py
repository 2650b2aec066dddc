#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
S="src/"
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    print(json.dumps({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}))

SENT="CAN frames handed to the transport"
DISK="node configuration read back after a simulated power cycle"
MNS="MinimumNodeService.cpp"; CFG="Configuration.cpp"; ETS="EventTeachingService.cpp"; EPS="EventProducerService.cpp"; ECS="EventConsumerService.cpp"; CAN="CanService.cpp"; NVS="NodeVariableService.cpp"; LMS="LongMessageService.cpp"

P("P01","Operating mode follows the specified life cycle, with the specified replies",
 "A node is always in exactly one of Uninitialised, Setup or Normal mode: a change-mode request takes Uninitialised to Setup and Setup or Normal to Uninitialised; a renegotiate request takes Normal to Setup and cancels Setup back to the mode held before; a set-node-number message is accepted only in Setup and leads to Normal with exactly that node number; another node's number request cancels Setup; and a mode message addressed to the node moves Normal to Setup or Setup/Normal to Uninitialised. Each transition sends exactly its announcements (number request carrying the current number on entering Setup, node-number acknowledge on accepting a number or on cancelling by button while a number is held, number release when leaving Normal for Uninitialised, GRSP OK or 'invalid mode' for mode messages) and is reported to the user interface and in the Normal bit of the module flags. Leaving for Uninitialised gives up node number and CANID; no other message or action changes the mode.",
 ["histories","inputs"],"every sequence of button actions, SNN, RQNN and MODE messages (any mode code, own or foreign number, truncated or complete) and restarts, starting from virgin, uninitialised or normal storage",
 "The tests check single transitions from a fixed mode; none explores sequences (cancel, re-request, mode message while renegotiating, restart in the middle).",
 [MNS,"Controller.cpp",CFG],[("instantMode state machine",MNS),("mode persistence",CFG),("indicateMode / PF_NORMAL","Controller.cpp")],
 [SENT,"mode indications to user-interface services","flags parameter",DISK],
 [("instantMode","current volatile mode","MinimumNodeService.h"),("currentMode","persisted mode","Configuration.h")])

P("P02","Identity, mode and settings survive restart; Setup and learn mode do not",
 "After any power cycle a node comes back with the node number, CANID, Normal/Uninitialised mode, heartbeat setting, node variables and event table it last reported or acknowledged, and the event-acknowledge setting the application made. A node that was in Setup comes back in the mode it held before Setup, and learn mode is always off after restart. A restart by itself changes nothing in persistent storage and sends nothing.",
 ["histories","configurations"],"every history of configuration messages followed by a restart at any point between messages, every node/event-variable configuration",
 "The tests never restart a node on the storage left behind by an earlier life; they set fields directly.",
 [CFG,MNS],[("write-through setters",CFG),("loadNVs / begin",CFG)],[DISK,SENT],
 [("stored identity","mode, CANID, node number, flags in persistent storage",CFG)])

P("P03","Requests addressed to another node have no effect and no reply",
 "A message whose opcode is addressed by node number and which carries a node number other than the node's own sends no reply and changes neither node variables, events, identity, settings nor mode. The only permitted reaction is that a learn-mode request for another node ends this node's learn mode. Numbers that differ from the node's own only in the high byte or only in the low byte are foreign.",
 ["inputs","histories"],"every addressed opcode, every foreign node number (including ones differing in one byte only, 0 and 65535), every mode, with and without learn mode",
 "Tests try one foreign number for a few opcodes; some opcodes (mode/learn) are only tested with the own number.",
 ["Service.cpp",MNS,NVS,ETS,CAN,EPS],[("own-number comparison","Service.cpp"),("per-opcode address check",MNS),("per-opcode address check",ETS)],[SENT,DISK,"flags parameter","event callbacks"])

P("P04","Node variables: reads return the last write, writes touch nothing else",
 "Reading a node variable returns the value of the last acknowledged write to that variable (zero after factory reset); a write changes that variable only and is durable. Index 0 on a read returns the count followed by every variable in order; an index above the configured count, or index 0 on a write, is refused with the invalid-index errors and changes nothing. A plain write is answered with a write acknowledge and a write-with-readback with the new value, and truncated requests are refused with the invalid-command response.",
 ["inputs","histories","configurations"],"all interleavings of reads and writes over all indices 0..255 and values 0..255, for 0 to 255 configured variables",
 "Tests write one variable in a 4-variable node and never check neighbouring storage, index 0 writes or restart.",
 [NVS,CFG],[("index check and write-through",NVS),("readNV/writeNV addressing",CFG)],[SENT,DISK,"raw storage outside the variable area"])

P("P05","The event table behaves as a keyed table under teach, unlearn and clear",
 "In learn mode, teaching a node-number/event-number pair makes it present in one numbered entry (an already taught pair is updated in place, a new pair takes a free entry, a first event variable greater than zero that some other entry already holds re-assigns that entry to the new pair, and teaching by index replaces that entry; only these last two may leave a pair stored twice, the lowest entry then being the one found); unlearning removes exactly the found entry and clearing removes all. Stored count, free count, read-all, read-by-index and lookup by pair always agree with each other and with what was taught, for any mix of pairs including ones that share an internal hash or differ in a single byte. Teaching into a full table, unlearning or querying an unknown pair and using an out-of-range or empty index is refused with the documented errors and leaves the table unchanged.",
 ["histories","inputs","configurations"],"every history of teach / teach-by-index / unlearn / clear / query over arbitrary pairs, for tables of 1 to 255 entries and 1 to 20 event variables, including restarts",
 "Tests run a handful of teach/unlearn steps on a nearly empty table with pairs that do not collide.",
 [ETS,CFG],[("hash lookup with storage compare",CFG),("free-slot search",CFG),("hash entry update after every change",ETS)],[SENT,DISK,"event table projection"],
 [("event table","numbered entries of node number, event number, event variables",CFG)])

P("P06","The event table and variables change only in learn mode; learn is exclusive",
 "Teach, unlearn, teach-by-index, clear and event-variable query by pair take effect only while the node is in learn mode; outside learn mode they change nothing (clear answers 'not in learn mode', the others are silent). Learn mode is entered only by a learn request or mode message carrying the node's own number and left by the corresponding own-number release or by a learn request for any other node, so nodes that all see the same bus traffic are never in learn mode together. The learn bit of the module flags always equals actual learn mode.",
 ["histories","inputs"],"every sequence of NNLRN/NNULN/MODE(learn on/off) for own and foreign numbers interleaved with all teaching opcodes, on one node and on several nodes sharing a bus",
 "Tests only exercise the own-number cases one at a time.",
 [ETS],[("bLearn gate",ETS),("PF_LRN flag","Controller.cpp")],[SENT,"flags parameter",DISK])

P("P07","Event variables read back as taught and never leak between events",
 "An event variable read by index or by pair returns the value last taught for that variable of that event, and 0xFF if it has never been taught since its entry was free; teaching one variable changes no other variable and no other event. Removing an event or clearing the table leaves nothing behind that a later event stored in the same entry could return. Variable number 0 returns the number of variables followed by all of them; numbers beyond the configured count are refused and change nothing.",
 ["histories","inputs","configurations"],"every history of teaching, unlearning and re-teaching over all variable numbers 0..255, including first teaching a variable other than the first, with restarts and table reuse",
 "Tests teach variable 1 of fresh events only; entry reuse and out-of-order variables are never exercised.",
 [ETS,CFG],[("event variable addressing",CFG),("clearing an entry",CFG)],[SENT,DISK,"event table projection"])

P("P08","Consumed events reach the user handler exactly once with the right entry",
 "Every received on/off event message (long or short, with 0 to 3 data bytes) or on/off status response whose identity is stored in the table calls the user's event handler exactly once, with the index of the entry holding that identity and the message unchanged. Short events match on node number zero and their device number whatever sender number they carry; long events and status responses match on both numbers in full. No other opcode and no event that is not (or no longer) stored calls the handler.",
 ["inputs","histories","configurations"],"all 256 opcodes, event identities present, absent, removed, colliding or differing in one byte, any table content and size",
 "Tests send single events against a one-entry table.",
 [ECS,CFG],[("opcode switch",ECS),("findExistingEvent",CFG)],["event handler callbacks",SENT])

P("P09","Produced events carry the stored identity, correct opcode and data",
 "Asking the node to send the event of a given producer value (first event variable) emits exactly one event message whose on/off opcode matches the requested state and number of data bytes, whose identity is the stored one (short form with the node's own number when the stored node number is zero) and whose data bytes are the ones given. If no entry holds that value a new default event with the node's own number and an unused event number is stored first and used from then on; entries that were unlearned are never used. If the table is full nothing is sent and nothing in storage changes.",
 ["inputs","histories","configurations"],"all producer values 1..255, states, data lengths and bytes, any table history including re-taught, short, unlearned and full",
 "Tests cover one value with a fresh table; the full table and unlearned entries are not covered.",
 [EPS,CFG],[("findOrCreateEventByEv / createDefaultEvent",EPS),("findExistingEventByEv",CFG)],[SENT,DISK])

P("P10","Event status requests reach the producer and responses are well formed",
 "A long event status request whose pair is stored with a non-zero first event variable calls the request handler exactly once with that entry and the message; a short request does so for node number zero and the given device number if it is addressed to this node or to node zero; all other requests, and any request when no handler is set, do nothing. A status response sent for an entry carries the response opcode matching state, data length and long/short form, the entry's identity (own node number for short events) and the data bytes given.",
 ["inputs","histories"],"all request opcodes and identities over any table content, handler set or not, all response states and data lengths",
 "Tests use one stored event and never leave the handler unset on dirty memory.",
 [EPS],[("handleProdSvcMessage",EPS),("sendEventResponse",EPS)],["request handler callbacks",SENT])

P("P11","Default produced events are created once, on first becoming Normal",
 "When a node that started uninitialised becomes Normal it stores one default event per configured produced event, each with the node's own number, a distinct unused event number, first event variable 1,2,3,... and all other variables zero, in previously free entries. This happens once, not on later renegotiations or restarts of the then Normal node, and existing entries are not altered. If free entries run out the remaining default events are omitted without touching any storage or memory outside the table.",
 ["histories","configurations"],"all numbers of produced events 0..n relative to table size 1..255, any earlier table content, any mode history and restarts",
 "Tests use one configuration with an empty table.",
 [EPS],[("uninit flag and setProducedEvents",EPS)],[DISK,"event table projection"])

P("P12","A node consumes its own events exactly when configured to",
 "With the consume-own-events service present, every event the node itself sends is offered to its event handler exactly once under the same matching rules as received events; without it, none is. Own events are still sent on the bus exactly once, and nothing else the node sends or receives is affected.",
 ["histories","configurations","inputs"],"all producer actions and table contents with and without the service, in any service order, mixed with received events",
 "Tests check one event in one service order.",
 ["ConsumeOwnEventsService.h",ECS,"Controller.cpp"],[("ACT_MESSAGE_OUT offered to consumer",ECS),("PF_COE flag","Controller.cpp")],["event handler callbacks",SENT])

P("P13","CANID self-enumeration picks the lowest CANID nobody answered for",
 "A self-enumeration (on entering Setup from Uninitialised, on an enumerate message, on a button request or on detecting another sender with the same CANID) sends exactly one RTR frame, collects answers for 100 ms and then adopts and stores the lowest CANID in 1..127 for which no answer arrived (1 if all answered). A request while one is running does not restart it, and answers outside the window or from CANID 0 do not count. Only an enumeration requested by message is acknowledged with a node-number acknowledge, once, after the new CANID is in force.",
 ["histories","inputs","schedules"],"all sets of answering CANIDs, all timings of answers, requests and further traffic around the 100 ms window, wrap of the millisecond clock",
 "Tests use a few answer sets; overlapping requests, clock wrap and late answers are untested.",
 [CAN],[("startCANenumeration / checkCANenumTimout",CAN),("enum_responses bitmap",CAN)],[SENT,DISK])

P("P14","CAN frame handling: headers, RTR answers, ignored frames, CANID command",
 "Every frame the node sends is a standard frame whose identifier is normal/low priority plus the CANID in force at that moment; every standard RTR frame is answered at once with exactly one empty data frame and nothing else; extended frames are ignored entirely. A set-CANID message with the node's number and a value 1..99 stores it and is acknowledged; other values are refused and change nothing. A data frame with payload from a sender using the node's own CANID starts exactly one self-enumeration and is still processed as a message; an empty or RTR frame never does.",
 ["inputs","histories"],"all identifiers, flags, lengths and payloads of incoming frames, interleaved with CANID changes",
 "Tests use fixed frames; extended/RTR combinations and CANID changes under traffic are untested.",
 [CAN],[("checkIncomingCanFrame",CAN),("makeHeader",CAN),("handleSetCANID",CAN)],[SENT,DISK])

P("P15","The circular buffer is a bounded FIFO that drops only the oldest entry",
 "For every sequence of put, pop, peek and clear, pops return exactly the entries put and not yet popped, in order; when an entry is put into a full buffer exactly the oldest unread entry is lost. Availability is true exactly when an unread entry exists and peek shows the next entry without removing it. The put, get and overflow counts and the high-water mark match the operations performed (modulo 256), for every capacity from 1 to 255.",
 ["histories","configurations"],"all operation sequences for all capacities, through wrap-around of indices and counters",
 "Tests use two capacities and short sequences.",
 ["CircularBuffer.h"],[("put/pop index arithmetic","CircularBuffer.h")],["results of put/pop/peek/available/clear and counters"])

P("P16","Messages are processed in arrival order, once each, by every service",
 "As long as no more than 30 units of work are waiting, every received message and every user action is processed exactly once, in arrival order, by every service, and all resulting messages leave in the order they were produced, however arrivals are interleaved with processing. If more work arrives than can be held, only the oldest waiting items are lost; what remains is still processed in order and the node keeps working.",
 ["schedules","histories"],"all interleavings of frame arrival, application sends and processing steps, with bursts below, at and above the queue capacity",
 "Tests process after every message; no test has two items waiting.",
 ["Controller.cpp","CircularBuffer.h",CAN],[("action queue","Controller.cpp")],[SENT,"event handler callbacks"])

P("P17","Long messages are sent complete, in order, paced and on one stream",
 "A long message accepted for sending is transmitted as one header with stream id and exact length followed by fragments numbered 1,2,3,... (modulo 256) that carry exactly the message bytes in order, five per fragment with the last one zero padded, never faster than the configured delay. While it is in progress the sender reports busy and refuses another message without disturbing the first; afterwards it accepts the next.",
 ["inputs","histories","schedules"],"all lengths including multiples of five and more than 255 fragments, all contents, stream ids and delays, any polling schedule",
 "Tests send short messages with a fixed polling schedule.",
 [LMS],[("sendLongMessage / process",LMS)],[SENT,"busy indication"])

P("P18","Long messages are received intact or reported as failed, never corrupted",
 "A receiver subscribed to a stream delivers to its handler exactly the bytes sent on that stream (in buffer-size pieces flagged incomplete, the last flagged complete), whatever other streams and fragments are interleaved and however many fragments there are. A missing, repeated or out-of-order fragment ends the message with a sequence error and silence longer than the timeout ends it with a timeout error, after which nothing more of that message is delivered and the next header is accepted. Streams that are not subscribed and messages with non-zero flags cause no callback.",
 ["inputs","histories","fault_sequences"],"all message lengths and buffer sizes, all losses, duplications, reorderings and interleavings of fragments of several streams, all timings",
 "Tests receive single short messages in order.",
 [LMS],[("processReceivedMessageFragment",LMS),("receive timeout",LMS)],["long-message handler callbacks"])

P("P19","Concurrent long messages are sent and received independently and intact",
 "The extended long message service sends up to its configured number of messages at once, each stream complete and in order, refuses a stream already in progress or a message beyond its capacity without any effect, and reports the number in progress. It receives up to its configured number of subscribed streams at once, and for each reports exactly one final status with the right bytes: complete, sequence error, timeout, truncated when the buffer fills first, or CRC error exactly when the receiver checks CRCs and the header carries a non-zero CRC that does not match. Message bytes may have any value including zero and messages may exceed 255 fragments.",
 ["inputs","histories","schedules","fault_sequences"],"all interleavings of several senders and receivers, losses, contents, context counts and CRC settings",
 "Tests send one or two text messages without loss.",
 [LMS],[("send/receive contexts",LMS),("crc16",LMS)],[SENT,"long-message handler callbacks"])

P("P20","Heartbeat is sent every five seconds exactly when enabled and Normal",
 "While a node is in Normal mode with heartbeat enabled it sends one heartbeat message each time more than five seconds have passed since the previous one, with its node number and a sequence number that increases by one modulo 256 and zero status; it never sends one in Uninitialised or Setup mode or while disabled. Heartbeat on/off requests with the node's number take effect at once and survive restart.",
 ["histories","schedules"],"all histories of mode changes, on/off requests, restarts and clock advances including clock wrap, any polling schedule",
 "Tests check a single heartbeat.",
 [MNS,CFG],[("heartbeat()",MNS),("setHeartbeat",CFG)],[SENT,DISK])

P("P21","Discovery replies truthfully describe the module",
 "Service discovery lists exactly the module's visible services, each with its position, type and version, preceded by their count, and a single-service query answers for that position or refuses hidden and non-existing ones. Parameter queries return the configured manufacturer, versions, module id, event, event-variable and node-variable counts, flags and processor data by index (0 returns all 21 in order), refusing other indices; the flags always reflect consumer, producer, consume-own, Normal and learn state. Parameter summary and name are answered only in Setup (name also in learn mode) and the query-node reply only by a node that has a number.",
 ["configurations","histories","inputs"],"all service combinations and orders, parameter values, indices 0..255 and modes",
 "Tests use one service list and one parameter set.",
 [MNS,"Controller.cpp","Parameters.h"],[("handleRequestServiceDefinitions",MNS),("handleRequestNodeParameter",MNS),("setParams / setParamFlag","Controller.cpp")],[SENT])

P("P22","Diagnostics report exact counts for exactly the services that have them",
 "For every visible service a diagnostics query returns its count and values by code, or all of them, with consumed, produced and taught event counts, node number changes, uptime and transport counters exact (two bytes each, most significant first). Unknown codes, hidden or non-existing services and truncated requests are refused with the specified responses, services without diagnostics report none, and querying changes nothing.",
 ["histories","configurations","inputs"],"all histories of countable operations beyond 255, all service indices and codes, all service lists",
 "Tests query counters after zero or one operation.",
 ["MinimumNodeServiceWithDiagnostics.cpp","CanServiceWithDiagnostics.cpp","EventConsumerServiceWithDiagnostics.cpp","EventProducerServiceWithDiagnostics.cpp","EventTeachingServiceWithDiagnostics.cpp","Service.cpp"],
 [("reportDiagnostics","MinimumNodeServiceWithDiagnostics.cpp"),("counters",ETS)],[SENT])

P("P23","Factory reset returns the module to a complete, clean default state",
 "A factory-reset message with the node's number releases the number on the bus and restarts the module as Uninitialised with node number 0, CANID 0, heartbeat off, all node variables zero and no events, whatever it held before, and with the reset indication set for the application; starting on virgin storage ends in the same state. A restart message with the node's number restarts without changing anything stored. No other message resets, and neither is acted on for a foreign number.",
 ["histories","configurations"],"any prior history and configuration, virgin or used storage",
 "Tests cannot restart the module and do not look at storage after reset.",
 [CFG,MNS],[("resetModule",CFG),("begin() virgin detection",CFG)],[DISK,SENT,"reboot request to the platform"])

P("P24","Power loss at any storage write damages at most the item being changed",
 "If power fails after any prefix of the byte writes a request causes, the module restarts, and every stored item the request does not address is exactly as before while each byte of the addressed item (node variable, event entry, identity field) has its old or its new value. In particular other events and node variables are never lost or altered by an interrupted teach, unlearn, set, mode change or CANID change, and repeating an interrupted node variable or CANID setting completes it. (An interrupted factory reset may also leave erased bytes; repeating it completes it.)",
 ["crash_points","histories"],"every prefix of storage writes of every configuration-changing message in any reachable state",
 "No test interrupts a write sequence or restarts on partial storage.",
 [CFG,ETS,EPS,MNS],[("order and extent of storage writes",CFG)],[DISK])

P("P25","Push button and serial commands request the right action once",
 "Releasing the push button after more than four seconds requests a mode change, after at least one and less than two seconds a renegotiation, and after less than half a second a CANID enumeration; other press lengths request nothing, each release requests at most one action, and nothing is requested while the button stays pressed or released. The serial 's' command requests a mode change; '*' restarts; no other serial input affects the node.",
 ["schedules","inputs"],"all press/release timings and polling schedules, including long idle times and clock wrap, in all modes; all serial characters",
 "The button, LED and serial user interfaces have no tests at all.",
 ["LEDUserInterface.cpp","Switch.cpp","SerialUserInterface.cpp"],[("Switch::run durations","Switch.cpp"),("checkRequestedAction","LEDUserInterface.cpp")],["actions queued in the controller","frames sent by the node"])

P("P26","The LEDs always show the operating mode, activity and pending reset",
 "In Normal mode the yellow LED is steadily on and green off, in Uninitialised mode green is on and yellow off, and in Setup yellow blinks with half-second phases and green is off; bus activity gives a green pulse of about 5 ms on top without changing what is shown afterwards. Holding the button beyond four seconds shows the Setup indication.",
 ["schedules","histories"],"all sequences of mode indications, activity and time steps",
 "LED and LEDUserInterface have no tests.",
 ["LED.cpp","LEDUserInterface.cpp"],[("LED::run","LED.cpp"),("indicateMode","LEDUserInterface.cpp")],["digital pin writes"])

P("P27","GridConnect encoding and decoding are exact inverses and reject bad text",
 "Encoding any valid standard or extended frame (data or RTR, 0 to 8 bytes) gives its unique upper-case GridConnect text and decoding that text returns the same frame. Frames with an identifier out of range or more than 8 bytes are refused, and any text that is not a well-formed GridConnect message (start, type, identifier digits, RTR flag, even number of hex digits up to 16, terminator) is rejected without crashing or reading outside the text.",
 ["inputs"],"all identifiers, flags, lengths and data; all texts obtained from valid ones by any single edit, truncation or extension",
 "Tests cover a table of examples.",
 ["GridConnect.cpp"],[("encodeGridConnect","GridConnect.cpp"),("decodeGridConnect","GridConnect.cpp")],["encoder output text","decoder result frame"])

P("P28","The serial GridConnect transport delivers each framed message exactly once",
 "From any byte stream, arriving in any chunks, the serial transport delivers exactly the well-formed GridConnect messages it contains, in order, once each and unchanged (lower-case digits accepted), resynchronising on every start character after noise, truncated or over-long input. Frames sent appear on the serial line as their exact text, and receive, transmit and error counters count each message or failure once.",
 ["inputs","schedules","fault_sequences"],"all byte streams mixing messages, partial messages, noise and over-long runs, all arrival schedules",
 "SerialGC has no tests.",
 ["SerialGC.cpp","GridConnect.cpp"],[("available() framing","SerialGC.cpp")],["frames delivered","serial output","counters"])

P("P29","Every storage backend returns the last byte written at each address",
 "For internal EEPROM, external I2C EEPROM, flash and Due storage alike, a read returns the last value written to that address by single or multi-byte writes, no write changes any other address (also across EEPROM or flash page boundaries), and contents survive a restart. Reset returns all data after the identity header to the erased value. Multi-byte writes of the sizes the library uses may start at any address.",
 ["histories","inputs","crash_points"],"all sequences of reads, writes, multi-byte writes at all addresses including page boundaries, resets and restarts, for every backend",
 "Storage backends are compiled but never executed by tests.",
 ["EepromInternalStorage.cpp","EepromExternalStorage.cpp","FlashStorage.cpp","DueEepromEmulationStorage.cpp"],[("page cache and write-back","FlashStorage.cpp"),("I2C addressing","EepromExternalStorage.cpp")],["bytes read back through the storage interface","contents of the simulated device"])

P("P30","On a shared bus a node number is given to at most one node",
 "When several nodes share a bus, then once all sent messages have been delivered at most one node is in Setup mode, in every order of button presses, deliveries and processing. Consequently a set-node-number message sent to a settled bus is accepted by at most one node, and a node knocked out of Setup keeps its previous mode and number.",
 ["schedules","histories"],"all interleavings of button presses, message deliveries and number assignments over 2 to 4 nodes",
 "Tests run a single node and inject one RQNN.",
 [MNS],[("RQNN aborts Setup",MNS)],["frames on the simulated bus","mode of every node"])

P("P31","CANID conflicts are resolved: enumeration yields unique CANIDs",
 "When several nodes share a bus and one runs a self-enumeration while no other does, the CANID it adopts differs from the CANIDs of all other nodes that have one. A node that hears a message from a sender with its own CANID starts a self-enumeration, so after conflicting nodes have transmitted and enumerated one after the other all CANIDs on the bus are distinct and stay so.",
 ["schedules","histories","configurations"],"all initial CANID assignments and orders of transmissions and enumerations over 2 to 4 nodes",
 "Tests run a single node with hand-made answers.",
 [CAN],[("conflict detection",CAN),("answering RTR frames",CAN)],["frames on the simulated bus","CANID of every node"])

P("P32","Malformed or unknown traffic never crashes a node or changes its state",
 "Whatever frames arrive (any identifier, length 0 to 8, any bytes, any order and timing), the node never crashes, hangs, or accesses memory or storage outside its own areas, and afterwards still answers requests correctly. A request shorter than its opcode requires is refused, ignored or read as if padded with zeros, and never changes stored data, and opcodes the module does not implement are ignored silently.",
 ["inputs","histories","configurations"],"all frames and sequences of frames, in every mode and configuration including minimum and maximum table sizes",
 "Tests send well-formed messages and a few short ones.",
 [CAN,MNS,NVS,ETS,ECS,EPS,LMS],[("length checks",ETS),("length checks",NVS),("length checks",MNS)],[SENT,DISK,"process exit under sanitizers"])

P("P33","The CAN controller driver passes frames through unchanged and counts them",
 "Every frame received by the CAN controller is delivered once, in order, with identifier, type, RTR flag, length and data unchanged, and every frame sent is handed to the controller likewise, with the send result reported truthfully. Receive and transmit counters equal the number of frames received and successfully sent since start, error counters and status are the controller's, and a transport reset leaves the driver usable.",
 ["inputs","histories","fault_sequences"],"all frames and sequences of receptions, sends that succeed or fail, and resets, in interrupt and polling configuration",
 "CAN2515 has no tests.",
 ["CAN2515.cpp"],[("frame conversion","CAN2515.cpp"),("counters","CAN2515.cpp")],["frames exchanged with a simulated controller","counters"])

P("P34","Events reach exactly the modules taught them, once each and in order",
 "On a bus of several modules, every event a module produces calls the event handler of exactly those other modules whose tables hold that event when it arrives (number pair for long events, event number alone for short ones), once per production, with the right entry, opcode and data and in the order its producer made them, whatever order the modules run in and whatever other traffic is interleaved. Teaching over the bus changes only modules in learn mode, and when all messages are delivered at most one module selected with NNLRN is in learn mode.",
 ["schedules","histories","configurations"],"all interleavings of productions, deliveries, teaching, queries, restarts and time over 2 to 4 modules with any tables and service orders",
 "Tests run a single node and never let two modules exchange events.",
 [EPS,ECS,ETS,CAN],[("sendEvent",EPS),("event handler dispatch",ECS),("NNLRN and EVLRN",ETS)],["frames on the simulated bus","event handler calls of every module","stored tables of every module"])

P("P35","Switch and LED objects report every press once and drive exact patterns",
 "A Switch looks at its pin when it is run: the first run after the level changed, and only that one, reports a change, so presses and releases are reported alternately, none twice and none that a run saw missed; pressed state, the duration of the current state (since the last reported change, or since the application restarted the count), the duration of the state before it and the time of the last change are exact, for buttons that pull the pin low and for those that pull it high. The output of an LED follows on, off and toggle at the next run; while blinking it inverts whenever a run finds 500 ms or more passed since the previous blink inversion, until on or off ends it; a pulse lights it at once and until the first run 5 ms or more later, after which it shows what it would have shown without the pulse. Several switches and LEDs never influence each other.",
 ["histories","inputs","schedules"],"all sequences of presses, releases, runs, resets and lamp commands with any times between them, for several buttons and lamps side by side",
 "The tests cover Switch and LED only through the user interface, with a few press lengths.",
 ["Switch.cpp","LED.cpp"],[("change detection in run()","Switch.cpp"),("blink and pulse in run()","LED.cpp")],["values returned by the Switch methods","level of the LED pins"])
