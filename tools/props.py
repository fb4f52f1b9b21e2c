import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None,):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
AD="src/packets/addresses.rs";DP="src/dp_types.rs";AP="src/packets/apdu.rs";TP="src/packets/tpdu.rs";EM="src/packets/emi.rs";CO="src/packets/core.rs";TU="src/packets/tunneling.rs";UD="src/transport/udp.rs";MO="src/transport/udp_monitor.rs"
p("C01","KNX addresses map to the standard 16-bit wire layout",
 "For every in-range KNX address - individual area.line.device (4/4/8 bits), three-level group main/middle/sub (5/3/8), two-level group main/sub (5/11) and free group (16 bits) - parsing its decimal text, or building it from its fields, gives an address of that kind whose 16-bit wire value is that standard layout and which prints as the same text. Decoding any 16-bit value as an individual or three-level group address and encoding it again gives the same value and the matching fields.",
 ["inputs"],"every in-range address of each of the four kinds (65 536 each) and every 16-bit wire value",
 "The tests parse one address per kind and encode two three-level ones; a wrong mask or shift shows only for addresses with particular high bits.",
 [AD],[("bit layout of each kind","src/packets/addresses.rs to_u16/from_u16"),("text parser","src/packets/addresses.rs TryFrom<&str>")],["KnxAddress::try_from, to_u16, Debug; IndividualAddress::from_u16; Group3LevelAddress::from_u16"])
p("C02","Malformed or out-of-range address text is rejected, never aliased",
 "Any text that is not one to three '/'-separated, or exactly three '.'-separated, decimal fields each within the range of its position is rejected with an error, without panicking. In particular no accepted text ever goes on the wire as the address of a different in-range address.",
 ["inputs"],"arbitrary strings: near-miss addresses (field counts, ranges, separators, blanks, signs, non-digits) and arbitrary unicode",
 "Three bad individual addresses and one bad group address are tested; out-of-range main/middle/area/line values, which would reach another device, are not.",
 [AD],[("field count and range checks","src/packets/addresses.rs TryFrom<&str> for KnxAddress / IndividualAddress / Group3LevelAddress")],["KnxAddress::try_from, IndividualAddress::try_from, Group3LevelAddress::try_from"])
p("C03","Bit, byte and integer datapoint values round-trip exactly",
 "For every value of the one-bit, bit-plus-3-bit-step, 8-bit, raw scaled 8-bit, 16-bit unsigned, 16-bit signed and 32-bit unsigned datapoint types, the encoded bytes are the big-endian value in exactly the width of the type, and decoding them returns the same value with the same main datapoint type number; a percentage given to the 16-bit signed type is carried as 100 times its value, saturating at the ends of the type. Byte strings shorter than the type are rejected with an error, and every type says whether it fits the 6-bit short payload (only the one-bit and bit-plus-step types do) without panicking.",
 ["inputs"],"every value of each 1, 4, 8 and 16 bit type, generated 32-bit values, and every short byte string",
 "The only datapoint test covers four floats; no integer, bit or step type is tested.",
 [DP],[("per-type codecs","src/dp_types.rs impl Pdt for PdtKnxBit, PdtKnxB1U3, PdtKnxByte, PdtKnxScaledValue, PdtKnxWord, PdtKnxInt, PdtKnxULong")],["Pdt::general/get_value/get_bytes/from_bytes/is_small, the code field, PdtKnxB1U3::dimming/blinds, PdtKnxInt::value_2_count/percent_v16, PdtKnxBit::switch"])
p("C04","2-byte float encoding is accurate over the whole range and saturates",
 "For every finite value between -671088.64 and 670433.28 the two encoded bytes decode, under the standard 0.01*M*2^E reading, to within half a step of the value, the step being 0.01 times the smallest power of two whose 12-bit mantissa can hold it. Values beyond the range, infinities included, encode to the nearest end of the range; the sign is never flipped, and encoding always terminates without panicking.",
 ["inputs"],"all f32 values: uniform over bit patterns, dense around every exponent boundary, around zero and beyond the range",
 "Four sample values are tested, all with small exponents; mantissa boundaries (20.48), tiny negatives, large exponents and out-of-range values are not.",
 [DP],[("2-byte float encoder","src/dp_types.rs calimero_float_to_bytes")],["PdtKnxFloat::general/temp + get_bytes"])
p("C05","Every 2-byte float pattern decodes to its standard value",
 "Each of the 65 536 two-byte patterns decodes to 0.01*M*2^E, with M the 12-bit two's-complement mantissa and E the unsigned 4-bit exponent, and encoding that value again gives bytes that decode to the same value. Byte strings of any other length are rejected with an error, never a panic.",
 ["inputs"],"all 65 536 patterns, plus byte strings of every other length up to 300 bytes",
 "The test only decodes four patterns the encoder itself produced, with exponents below 8 and never the mantissa 0x000 with the sign bit set.",
 [DP],[("2-byte float decoder","src/dp_types.rs bytes_to_float")],["PdtKnxFloat::from_bytes, PdtKnxFloat::temp_from_bytes, get_value, get_bytes"])
p("C06","Percent scaling round-trips, is monotone and saturates",
 "For every percentage from 0 to 100, encoding as a scaled byte and decoding again returns it to within 0.2 percentage points, larger percentages never give smaller bytes, and the byte is the nearest one on the linear 0-255 scale, 0 % giving 0 and 100 % giving 255. Percentages outside 0-100 saturate at the ends, and every one of the 256 bytes decodes to its own percentage within 0-100, which grows with the byte and encodes to the same byte again.",
 ["inputs"],"all f32 percentages, dense around rounding boundaries, and all 256 bytes",
 "No test touches the scaled type.",
 [DP],[("percent conversion","src/dp_types.rs PdtKnxScaledValue::scaling / get_value")],["PdtKnxScaledValue::scaling, inherent get_value, get_bytes, from_bytes"])
p("C07","The value written is the value a listener decodes",
 "For every datapoint value and destination, the write request produced for it, delivered to a listener as a bus indication, parses to the same destination address and to payload bytes from which the same datapoint value is decoded. This holds both when the request is built from the datapoint object and when it is built from its bytes and its short/long flag.",
 ["inputs"],"every datapoint type x generated values x generated destination addresses x optional additional-info blocks",
 "Encoding and decoding are tested apart and on single packets; no test joins the write path to the read path.",
 [DP,AP,TP,EM],[("payload packing","src/packets/apdu.rs group_value_write/group_value_write_pd/packet"),("request encoder","src/packets/emi.rs LDataReqMessage::packet"),("indication decoder","src/packets/emi.rs CEMI::from_packet, LDataInd::from_cemi")],["LDataReqMessage::packet -> CEMI::from_packet -> LDataInd::from_cemi -> Pdt::from_bytes"])
p("C08","Group read and write requests are exact L_Data.req messages",
 "For every destination address, priority and payload of up to 253 bytes, the encoded request is: L_Data.req code, no additional info, control byte with no repeat, broadcast and the priority (low by default), second control byte with hop count 6 and the destination-type bit set exactly for group addresses, source 0, the 16-bit destination, the length of the application data, then the group read or group write code with the payload. Short payloads occupy the low six bits of the second application byte and leave the service code intact; the message is marked as a standard frame exactly when its payload has at most 14 bytes, otherwise as an extended one.",
 ["inputs"],"every address kind x payload length 0-253 x short/long x priority",
 "One test looks at the two bytes of the read code; nothing checks a whole request.",
 [AP,TP,EM],[("request encoder","src/packets/emi.rs LDataReqMessage::packet"),("application codes","src/packets/apdu.rs APCI::packet, APDU::packet")],["LDataReqMessage::packet, APDU::packet"])
p("C09","cEMI messages parse into exactly their parts",
 "Any cEMI message made of a message code, a list of additional-info blocks of known type and a remainder parses into exactly that code, those blocks in order with their types and contents, and that remainder. A message whose additional-info blocks are cut short or run past their declared total length is rejected.",
 ["inputs"],"generated messages: 0-60 info blocks of 0-253 bytes within the 255-byte budget, any remainder; and structural mutations of them",
 "The one test has no additional info.",
 [EM],[("additional-info walk","src/packets/emi.rs CEMI::from_packet")],["CEMI::from_packet"])
p("C10","L_Data indications and confirmations decode exactly",
 "Every complete L_Data indication decodes to exactly the source, destination and its kind, control flags, application service and payload its bytes carry - the 6-bit value when the application length is 0 or 1, otherwise exactly that many bytes less one - and every confirmation to its addresses, flags and positive or negative result. One too short for its own length field is rejected, never filled up.",
 ["inputs"],"all control bytes and flag combinations, addresses, lengths 0-255 and payloads, and every truncation",
 "One indication with a 6-bit payload is tested and only the payload length is compared.",
 [EM],[("field extraction","src/packets/emi.rs LDataInd::from_cemi, LDataCon::from_cemi")],["LDataInd::from_cemi, LDataCon::from_cemi"])
p("C11","KNXnet/IP frames round-trip and declare their true length",
 "Every connection, connection-state, disconnect, tunnelling, feature and search frame the library can build carries the protocol header with the right service code and a total length equal to its actual size. Every well-formed frame of a kind the library can parse parses to exactly its fields, and for kinds that can also be built, rebuilding the parsed frame gives the identical bytes.",
 ["inputs"],"all field values of every frame kind (channel, sequence, status, endpoints, addresses, payload 0-2000 bytes)",
 "Two search frames are parsed in tests; no frame is rebuilt and compared.",
 [CO,TU],[("frame codecs","src/packets/core.rs and src/packets/tunneling.rs packet()/from_packet() pairs")],["packet()/from_packet() of every frame type, HPAI, CRD, KnxNetIpHeader, ConnectionRequest, FeatureSet"])
p("C12","Device description blocks round-trip in sequence",
 "Every description block - device information, service families, IP configuration, current IP configuration, KNX addresses, manufacturer data - parses from its standard encoding to exactly its fields, consuming exactly its declared structure length so that a following block is read correctly, and rebuilds to an even, correctly declared structure length that parses to the same fields. A device name of up to 30 Latin-1 characters is stored and read back unchanged apart from padding, and longer or unencodable names are rejected.",
 ["inputs"],"generated blocks of all six kinds, alone and in sequences, with 0-126 families/addresses and 0-250 bytes of manufacturer data; generated names",
 "One search response with one device block and one family block is parsed; the other four kinds are never exercised.",
 [CO],[("block codecs","src/packets/core.rs DIB::packet/from_packet and the per-kind packet/from_packet"),("name handling","src/packets/core.rs DeviceInformationDIB::new/friendly_name")],["DIB::from_packet, DIB::packet, DeviceInformationDIB::new, friendly_name"])
p("C13","No received bytes can crash a parser",
 "Every parser of received data - datagrams, frames, description blocks, endpoints, cEMI, indications, confirmations, datapoint values - returns either a value or an error for every byte string, without panicking. Nothing it returns is larger than a small multiple of its input.",
 ["inputs"],"arbitrary byte strings and structure-aware mutations of valid frames (length fields forced to 0, small, near-maximal; truncation; splicing)",
 "Only well-formed packets are parsed in tests; a single hostile length byte can underflow or overflow.",
 [CO,TU,EM,UD,DP],[("length arithmetic and bounds","src/packets/core.rs DIBs, src/packets/tunneling.rs TunnelingRequest::from_packet, src/packets/emi.rs CEMI::from_packet, src/transport/udp.rs parse_response")],["every from_packet/from_cemi/from_bytes and parse_response"])
p("C14","Truncated or mislabelled frames are rejected",
 "Every strict prefix of a valid frame of any kind the library parses is rejected with an error instead of being completed with invented bytes. A frame with a wrong header length, protocol version or service code is rejected by the parser of each kind it is not.",
 ["inputs"],"every truncation point of generated frames of every kind; every wrong header length/version/service value",
 "No test feeds a truncated or mislabelled frame.",
 [CO,TU],[("header checks and exact reads","src/packets/core.rs, src/packets/tunneling.rs from_packet")],["from_packet of every kind, parse_response"])
p("C15","Datagrams are classified by service code with their fields intact",
 "Every well-formed tunnelling request, tunnelling acknowledgement, feature response, connection-state response, disconnect request and disconnect response datagram is recognised as that kind with exactly its channel, sequence number, status and payload. A datagram with any other service code, or too short to have one, is reported as an error.",
 ["inputs"],"generated datagrams of the six kinds and datagrams with every other service code",
 "The dispatcher has no passing test.",
 [UD,CO,TU],[("dispatcher","src/transport/udp.rs parse_response")],["parse_response"])
p("C16","Every tunnelled telegram is acknowledged exactly once, in order",
 "While connected, the client answers each tunnelling request and each feature response from the gateway with exactly one acknowledgement carrying the same channel and sequence number and status 0, in the order received - whether or not the payload can be parsed or is wanted by any caller, and during reads, writes and heartbeats and after reconnections alike. It sends no acknowledgement for anything else.",
 ["histories","inputs","schedules"],"random histories of gateway traffic, client operations and clock advances on both client kinds",
 "The transport has no passing test.",
 [UD,MO],[("receive loop","src/transport/udp.rs handle_recv_from_knx_device")],["UDP frames seen by a simulated gateway"])
p("C17","The monitor delivers every telegram exactly once, in order",
 "Every well-formed L_Data indication the gateway sends on the tunnel is returned by the monitor's next-message call exactly once, unmodified and in order, whatever other frames, confirmations or malformed telegrams arrive between, however late the consumer reads, however many heartbeats pass meanwhile and whichever waiting calls are abandoned. Nothing else the gateway sends (bus-monitor indications apart) is returned as a message.",
 ["histories","inputs","schedules"],"histories of telegram bursts (more than the internal queue holds), other frames, consumer pauses, clock advances across heartbeats and reconnections",
 "The monitor has no test at all.",
 [UD,MO],[("receive loop and queue","src/transport/udp.rs handle_recv_from_knx_device"),("heartbeat/receive multiplexing","src/transport/udp_monitor.rs connect"),("consumer","src/transport/udp_monitor.rs next_msg")],["UdpMonitor::next_msg"])
p("C18","A read returns only the requested address's own fresh value",
 "A group read sends exactly one read request for its address and returns the payload of the first group-response or group-write telegram for exactly that group address that arrives after the request was sent. Telegrams for other or individual addresses, read requests by other devices, confirmations, malformed telegrams and telegrams received before the request never become its result nor make it fail.",
 ["histories","inputs"],"histories interleaving reads with arbitrary bus traffic before and during them",
 "No read is tested.",
 [UD,EM],[("response matching","src/transport/udp.rs read_group_address_value")],["UdpClient::read_group_address_value result vs gateway log"])
p("C19","A write succeeds only on a positive confirmation of that write",
 "A group write sends exactly one write request carrying the value, and reports success if and only if a positive confirmation for its destination address arrives after the request was sent and within its time limit; a negative confirmation for that address makes it fail. Indications, confirmations for other addresses, malformed telegrams and confirmations received before the request neither complete it nor make it fail, and a value too long for one telegram is refused without sending anything.",
 ["histories","inputs"],"histories interleaving writes with arbitrary bus traffic before and during them; value lengths 0-600",
 "No write is tested.",
 [UD,EM],[("confirmation matching","src/transport/udp.rs write_group_address_value")],["UdpClient::write_group_address_value result vs gateway log"])
p("C20","Concurrent callers never receive each other's results",
 "When several reads and writes are issued concurrently on one shared client, each read returns the value belonging to its own address and each write its own confirmation, one request being outstanding at a time, and all of them complete. A caller that gives up early (its future is dropped) does not disturb the others.",
 ["schedules","histories"],"2-8 concurrent operations in generated arrival orders, with reordered unrelated traffic, dropped replies and cancelled callers",
 "No operation, let alone concurrent ones, is tested.",
 [UD],[("operation serialisation","src/transport/udp.rs UdpClient transport mutex")],["results of concurrent operations on Arc<UdpClient>"])
p("C21","Sequence numbers are consecutive per connection",
 "On each connection the requests the client tunnels carry that connection's channel number and sequence numbers that start afresh and increase by exactly one modulo 256, regardless of operation outcome, client kind or wrap-around. The monitor's initial feature request counts as number 0; the plain client starts at 0.",
 ["histories"],"histories of several hundred operations with failures, wrap-around and reconnections, on both client kinds",
 "No tunnelled request is tested; wrap-around needs more than 256 of them.",
 [UD,MO],[("sequence counter","src/transport/udp.rs and udp_monitor.rs get_next_sequence_nr")],["UDP frames seen by a simulated gateway"],
 [("sequence_nr","next outgoing sequence number","ConnectionData in src/transport/udp.rs, udp_monitor.rs")])
p("C22","The client connects, retries and reconnects until it has a tunnel",
 "From any sequence of refused, malformed, foreign or missing answers the client keeps requesting a tunnel - again within 10 seconds of a refusal and 40 of silence - and uses a channel only after a success answer for it. After the gateway reports a connection-state error, or the socket fails, it requests a new tunnel and later operations use the new channel; operations started without a tunnel fail at once without sending anything.",
 ["histories","fault_sequences"],"sequences of connect answers (success, each error code, garbage, other frames, silence) and of connection losses, on both client kinds",
 "The two connection tests do not pass; no retry or loss is tested.",
 [UD,MO,CO],[("connect loop","src/transport/udp.rs connect/try_connection"),("reconnection loop","src/transport/udp.rs, udp_monitor.rs connect")],["UDP frames seen by a simulated gateway, operation results, UdpMonitor::is_connected"])
p("C23","Malformed or unknown datagrams never disturb the session",
 "Any datagram from the gateway that is malformed, truncated, empty, oversized or of a service the client does not know is ignored: the tunnel stays up on the same channel, no new tunnel is requested, pending operations still complete and following telegrams are still acknowledged and delivered.",
 ["inputs","histories"],"arbitrary and mutated datagrams injected at any point of a session, idle or with operations pending, on both client kinds",
 "No received datagram is tested at the transport level.",
 [UD],[("receive loop error handling","src/transport/udp.rs handle_recv_from_knx_device")],["UDP frames seen by a simulated gateway, operation results"])
p("C24","Heartbeats keep flowing on the current channel",
 "While a tunnel is up the client sends a connection-state request carrying that tunnel's channel at least once in every 60 seconds, whatever traffic, operations or reconnections happen, and (status queries made by the caller apart) never two of them within less than 60 seconds. No heartbeat is sent for a channel that has been lost.",
 ["histories","schedules"],"histories over minutes to hours of simulated time with traffic, operations, an unread backlog, reconnections",
 "Needs minutes of time; no test covers it.",
 [UD,MO],[("heartbeat interval","src/transport/udp.rs, udp_monitor.rs connect")],["timestamped UDP frames seen by a simulated gateway"])
p("C25","Disconnecting completes and ends the session",
 "A disconnect sends one disconnect request for the current channel and completes successfully once the gateway confirms it, whatever other traffic surrounds the answer; without an answer or without a tunnel it fails with an error in bounded time, never panicking. After it succeeds nothing more is sent - no heartbeat, no new tunnel request - the client no longer counts as connected and every further operation fails with an error.",
 ["histories","fault_sequences"],"disconnects at generated points of a session with surrounding traffic, unread backlog, missing answers, dead gateway, on both client kinds",
 "The one test that disconnects does not pass.",
 [UD,MO],[("disconnect","src/transport/udp.rs, udp_monitor.rs disconnect")],["UDP frames seen by a simulated gateway, results of disconnect and of later operations"])
p("C26","A disconnect request from the gateway is answered and recovered from",
 "When the gateway asks to disconnect, the client answers with a disconnect response for that channel with status 0 and then requests a new tunnel; operations issued after the new tunnel is up work on the new channel.",
 ["histories","inputs"],"gateway disconnects (any channel number and endpoint) at generated points of a session, repeatedly, on both client kinds",
 "No test sends a disconnect request.",
 [UD,MO,CO],[("disconnect request parser","src/packets/core.rs DisconnectRequest::from_packet"),("receive loop","src/transport/udp.rs handle_recv_from_knx_device")],["UDP frames seen by a simulated gateway"])
p("C27","The connection status query reports the gateway's answer",
 "A connection-status query sends one connection-state request for the current channel and returns the channel and status of the gateway's connection-state response, whatever telegrams arrive around it, and fails with an error in bounded time when no answer comes. Telegrams arriving meanwhile are still acknowledged and are not lost.",
 ["histories","schedules"],"queries at generated points of a session with surrounding telegrams and missing answers",
 "The one test does not pass: query and background task race for the answer.",
 [UD],[("status query","src/transport/udp.rs get_connectionstate")],["UdpClient::get_connection_status result, UDP frames"])
p("C28","Discovery returns exactly the valid answers",
 "A search sends one search request to the KNX system multicast endpoint that announces the client's own receiving port, and returns exactly the well-formed search responses received, in order and with all fields intact, ignoring every other datagram. It ends once no datagram has arrived for the given time, and reports send failures as errors rather than panicking.",
 ["inputs","histories","fault_sequences"],"sequences of 0-20 datagrams: valid responses of varying length, truncated ones, garbage, other frames; send failures",
 "Only the parser of one response is tested.",
 [UD,CO],[("search loop","src/transport/udp.rs search")],["UdpClient::search result"])
p("C29","Connection subscribers are notified and can never stall the session",
 "Every live subscriber with room in its channel gets exactly one notification for each tunnel established after it subscribed. Subscribers that are gone or never read are tolerated: the session connects, acknowledges, delivers and answers status calls all the same.",
 ["histories"],"histories of subscriptions (various capacities), draining, dropping and reconnections",
 "The monitor has no test.",
 [MO],[("notification loop","src/transport/udp_monitor.rs connect"),("subscription","src/transport/udp_monitor.rs add_on_connect")],["mpsc receivers given to add_on_connect, UdpMonitor::is_connected/next_msg"])
p("C30","Every operation ends within its time limit whatever the bus does",
 "A read, write, status query or disconnect that gets no matching answer ends with an error no later than 10 seconds after it was sent, however much unrelated traffic keeps arriving, and one that gets its answer earlier ends at once. A later operation is not affected by an earlier one having timed out.",
 ["histories","schedules"],"operations under generated streams of unrelated traffic spaced over simulated time, with late or missing answers",
 "Needs controlled time; no operation is tested.",
 [UD],[("time limits","src/transport/udp.rs read_group_address_value, write_group_address_value, get_connectionstate, disconnect")],["completion time of operations on a simulated clock"])
p("C31","Dropping the client ends its session",
 "Once the last handle to a client or monitor is dropped it sends at most a disconnect request: it opens no new tunnel and sends no more heartbeats, whatever the gateway sends afterwards.",
 ["histories"],"drops at generated points of a session (connected, connecting, with backlog) followed by gateway traffic and hours of simulated time",
 "No test drops a client and observes the wire.",
 [UD,MO],[("background task termination","src/transport/udp.rs, udp_monitor.rs connect")],["UDP frames seen by a simulated gateway after the drop"])
p("C32","An idle client survives any amount of bus traffic",
 "A client that issues no operation still acknowledges every telegram without delay and keeps reacting to gateway requests, however many telegrams arrive, and a later read or write works normally.",
 ["histories"],"idle periods with 0-1000 telegrams followed by gateway requests and operations",
 "No idle session is tested; the effect needs more telegrams than the internal queue holds.",
 [UD],[("queue overflow policy","src/transport/udp.rs handle_recv_from_knx_device")],["acknowledgements seen by a simulated gateway, results of later operations"])
p("C33","The monitor sends exactly the requests asked for, at once",
 "A read solicitation or a write on the monitor sends exactly one request on the current tunnel, carrying exactly that address and value, and returns as soon as it is sent, without waiting for an answer. Without a tunnel, when the request cannot be sent, or when the value is too long for one telegram it returns an error and no request goes out. Neither these calls nor status calls and subscriptions wait for, or take away, the message a pending next-message call is waiting for.",
 ["histories","inputs","schedules"],"histories of monitor calls, singly and concurrently, with and without a tunnel, while a message is awaited, with failing sends; value lengths 0-600",
 "The monitor has no test at all.",
 [MO],[("monitor requests","src/transport/udp_monitor.rs solecitate_group_read, write_group_address_value, tunnel_req")],["results of the monitor's calls, UDP frames seen by a simulated gateway"])
p("C34","Every frame sent is well-formed and announces where answers reach the client",
 "Every frame a client or monitor sends during a session is a well-formed KNXnet/IP frame, and every connection, connection-state and disconnect request announces an endpoint at which the client itself receives - the unspecified address that asks for answers to the sender, or its own socket's address - whatever endpoints the gateway names in its answers. Connection requests ask for a link-layer tunnel.",
 ["histories"],"sessions on both client kinds with refused attempts, reconnections, heartbeats, status queries, disconnects and drops; gateway endpoints arbitrary",
 "No test looks at the frames of a session.",
 [UD,MO,CO],[("connection data","src/transport/udp.rs, udp_monitor.rs ConnectionData"),("connection request","src/packets/core.rs ConnectionRequest")],["UDP frames seen by a simulated gateway"])
p("C35","Sessions in one process are independent",
 "When several clients and monitors run in one process, each shows exactly the acknowledgements, requests, sequence numbers, heartbeats, results and messages of its own history: telegrams, answers, lost tunnels, reconnections, disconnects and drops of one never affect another, even when they use the same channel numbers and group addresses.",
 ["histories","schedules"],"two or three sessions of either kind with interleaved generated events, operations left running and a common clock",
 "Each test uses one client.",
 [UD,MO],[("session state","src/transport/udp.rs UdpTransport, src/transport/udp_monitor.rs UdpMonitorTransport")],["UDP frames seen by one simulated gateway per session, results of all calls"])
p("C36","Only the configured gateway is heard and spoken to",
 "A client or monitor reacts only to datagrams from the address and port it was told to connect to, and sends its frames nowhere else. Whatever frames other sockets send to it - from another port of the gateway's host or from another host, telegrams, answers to the running operation, query or connection attempt, state errors and disconnect requests among them - no acknowledgement, result, message, lost or granted tunnel ever comes of them.",
 ["histories","inputs"],"sessions of both client kinds in which three other sockets send generated frames of every kind while connecting, connected, reconnecting and disconnecting",
 "No test runs a session, let alone with a third party.",
 [UD,MO],[("connected socket","src/transport/udp.rs, udp_monitor.rs connect; MyUdpSocket")],["UDP frames seen by a simulated gateway and by the other sockets, results of all calls"])
p("C37","The monitor enables the information service first on every tunnel",
 "On every tunnel it is granted - the first and each one after a loss - the monitor's first frame is exactly one feature-set request, numbered 0 on that tunnel's channel, that sets the information-service feature to 1; it is sent before any subscriber is told of the tunnel. When it cannot be sent the tunnel is not used and a new one is requested. The plain client sends no feature request at all.",
 ["histories"],"sessions of 1-5 tunnels with refused attempts, failing sends, telegrams arriving together with the success answer, traffic, feature answers, operations and time",
 "The monitor has no test at all.",
 [MO,UD],[("feature request","src/transport/udp_monitor.rs enable_busmonitor, connect"),("frame","src/packets/tunneling.rs FeatureSet")],["UDP frames seen by a simulated gateway, notifications of subscribers"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
