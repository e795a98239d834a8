"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))

F="elgas/frames.py"; U="elgas/utils.py"; S="elgas/security.py"; C="elgas/connection.py"; A="elgas/application.py"
ST="elgas/state.py"; CL="elgas/client.py"; T="elgas/transport.py"; PA="elgas/parser.py"; PF="elgas/parameters/factory.py"

p("C01","Frames are serialised to the exact ELGAS2 wire layout",
  "Serialising a frame (plain or encrypted, request or response) gives exactly: 0x02, 0xFE, the frame type (0x84 request, 0x85 encrypted request, 0x86 response, 0x87 encrypted response), the service number, a 16-bit little-endian length equal to the payload length plus 15, the destination address (16-bit little-endian part then 8-bit part), the source address in the same form, the unmodified payload, the XOR byte, the modulo-256 sum byte, the rotate-and-XOR byte (each computed over everything between the 0x02 and the redundancy bytes) and 0x0D. A field value that does not fit its place raises an error and is never truncated.",
  ["inputs"],"every service number, every address and every payload (any content, any length that fits the length field)",
  "The frame tests compare a handful of fixed byte strings whose addresses are all zero, so byte order, address placement and long payloads are never exercised.",
  [F,U],[("frame writers",F),("redundancy functions",U)])
p("C02","Only a fully checked frame is ever accepted",
  "A byte string is accepted as a frame only if it starts with 0x02 0xFE and that frame kind's type byte, ends with 0x0D, carries a known service number, its length field equals its number of bytes not counting the first, and all three redundancy bytes match the bytes they cover. Every other byte string, of any length including empty or truncated ones, is rejected with a ValueError and with no other exception; the response dispatcher only hands out the plain or the encrypted response kind according to the type byte.",
  ["inputs"],"every byte string of every length handed to the frame decoders and the response dispatcher",
  "Tests feed valid frames and a couple of broken ones; that no path skips a check, for any length and content, is a universally quantified statement.",
  [F],[("frame decoders and response dispatcher",F)])
p("C03","Decoding a frame is the inverse of encoding it",
  "For each of the four frame kinds, decoding the serialised form of a frame gives back a frame with the same service number, the same four address parts and the same payload.",
  ["inputs"],"every frame with in-range addresses, any service number and any payload that fits",
  "Round trips in the tests use one or two frames with zero addresses, for which a swapped field or byte order is invisible.",
  [F],[("frame writers and decoders",F)])
p("C04","Escaping hides reserved bytes and is exactly undone on receive",
  "Escaping a frame ending in 0x0D replaces each 0x0D, 0x1B and 0x8D before the final byte by 0x1B 0x0E, 0x1B 0x1B and 0x1B 0x0F, changes nothing else, and so leaves 0x0D only as the final byte; data not ending in 0x0D is refused with a ValueError. Un-escaping the result gives back the original frame, byte for byte, for every frame; a 0x1B followed by a byte it never precedes in escaped data is kept together with that byte.",
  ["inputs"],"every byte string ending in 0x0D, in particular every adjacency of reserved and escape bytes",
  "Unit tests try a few sequences; order-of-replacement and second-pass bugs only show on specific adjacent byte combinations in arbitrary position.",
  [U],[("escape and un-escape routines",U)])
p("C05","Redundancy and CRC functions compute their definitions on all inputs",
  "For every byte sequence, including the empty one: the LRC is the XOR of all bytes, the checksum is their sum modulo 256, the DRC starts at zero and for each byte rotates left by one bit within 8 bits and XORs the byte, and the CRC is CRC-16 with reflected polynomial 0xA001 and initial value 0xFFFF, returned with its two bytes swapped.",
  ["inputs"],"every byte sequence of every length",
  "Known-answer tests pin a few values; a wrong table entry, carry or mask shows only for particular bytes and lengths.",
  [U],[("redundancy and CRC functions, CRC table",U)])
p("C06","Encrypted payloads are well-formed envelopes for every payload length",
  "Encrypting a payload gives its 16-bit little-endian length, the key id byte, and then the AES-CBC encryption (key of the context, the same value as initialisation vector) of: the payload, between 0 and 15 padding bytes, and a big-endian CRC-16 over length, key id, payload and padding. The encrypted part is always a whole number of 16-byte blocks, and the padding is never longer than needed for that.",
  ["inputs"],"every payload of every length (all residues modulo the block size), every key id and key",
  "Tests encrypt one or two payload lengths; alignment must hold for every residue class and the CRC must cover exactly the transmitted padding.",
  [S,U],[("envelope writer and padding",S)])
p("C07","Decryption verifies the envelope and recovers the payload exactly",
  "Decrypting an envelope returns plaintext only if its key id equals the context's key id and the CRC recomputed over length, key id and decrypted body equals the transmitted one; a CRC mismatch is a ValueError. Decrypting what the same context encrypted returns exactly the original payload, for every payload.",
  ["inputs"],"every payload, and every received envelope",
  "Tests decrypt one captured message; that no path returns unverified plaintext and that every length round-trips are universal statements.",
  [S,U],[("envelope reader",S)])
p("C08","A configured key means every message is encrypted",
  "When a connection is given an encryption key and key id, every request it sends is an encrypted frame whose payload is the encryption of the request under that key and id, and an encrypted response is decrypted with the same key and id before it is interpreted; without a key every request is a plain frame carrying the request unchanged. A key without a key id is refused when the connection is created instead of silently sending plaintext, and a client passes its key and id to its connection unchanged.",
  ["configurations","inputs"],"every configuration of key and key id, every request type",
  "No test exercises an encrypted connection end to end, and silent fallback to plaintext is invisible to a test that only looks at responses.",
  [C,CL,F,S],[("connection send path and cipher context creation",C),("client construction of its connection",CL)])
p("C09","One outstanding request; only its own response completes it",
  "A connection starts idle, accepts a request only while idle, and after sending one accepts only the response type belonging to that request, which returns it to idle; any other event raises the local protocol error and leaves the state unchanged. Each request class, the response class it waits for, and the response class chosen for a received frame all belong to the same service number, and each service that can be requested has exactly one such response.",
  ["histories"],"every sequence of send and receive events over every request and response type",
  "Tests never drive sequences; the guarantee is about all pairs (state, event) and the agreement of three separate tables.",
  [ST,C,A],[("transition table and event processing",ST),("service to response map",C),("service numbers of PDU classes",A)],
  state=[("current_state","what the connection waits for",ST)])
p("C10","A request that could not be sent leaves the connection usable",
  "If sending a request raises, because it is not allowed now or because it cannot be serialised, framed or encrypted, the connection's state and receive buffer are exactly what they were before the call, so a following valid request is accepted.",
  ["fault_sequences","histories"],"every request, every state, every point in sending at which an exception can be raised",
  "Tests do not inject failures during serialisation; the property ranges over every exceptional exit.",
  [C,ST],[("connection send path",C)],state=[("current_state","what the connection waits for",ST)])
p("C11","Device error replies always surface as the documented exception",
  "A response whose payload is a single non-zero byte raises one of the documented device error exceptions, never is returned as a successful response: bit 0 wrong password, bit 1 setting archive full, bit 2 switch off, bit 3 blocked buffer, bit 4 data error, bit 5 cipher key error, bit 6 wrong encryption keys, bit 7 write error, and the exception raised always corresponds to a bit that is set. After such an error the reply has been consumed and the connection accepts a new request.",
  ["inputs","histories"],"all 255 non-zero error bytes, plain and encrypted responses, every pending request",
  "No test covers error replies; combinations of bits and the state after the error are never sampled.",
  [C,"elgas/exceptions.py"],[("error dispatch and receive path",C)])
p("C12","Receive path: nothing lost, nothing corrupt delivered, never stuck",
  "However received bytes are split into chunks, they are buffered in order and until the terminating 0x0D arrives the connection only asks for more data, without losing bytes or changing state; a lone 0x0D received while nothing is buffered is ignored. Examining a terminated chunk always consumes it: one that is not a valid frame is discarded and the connection asks for more data, so a valid frame that follows is still delivered, and a chunk whose interpretation raises is not presented again. After a response is delivered the buffer is empty.",
  ["inputs","fault_sequences","histories"],"every chunking of the byte stream, every corrupt or stray chunk before a valid frame",
  "Tests deliver single complete frames; fragmentation and recovery after corruption are never exercised.",
  [C,F,U],[("receive buffer handling",C)],state=[("buffer","bytes received and not yet consumed",C)])
p("C13","Response payloads are decoded at the documented positions",
  "Decoding a response payload that holds its fixed fields takes each field from its documented position: instantaneous values (6 time bytes first; from the end 2 parameter CRC, 8 summary status, 8 status, 1 data access; the rest data), device time (6 time bytes, 1 access result, extra data, 2 CRC bytes), parameters (16-bit first number, 16-bit amount, end flag, data), archives by id and by time (archive id, 32-bit little-endian oldest record id, data), write time (no fields). Every payload byte that belongs to a field is used in full and nothing else.",
  ["inputs"],"every payload content and every payload length that holds the fixed fields",
  "Tests decode a few recorded payloads in which the high bytes are zero, so truncated or shifted fields go unnoticed.",
  [A,U],[("response decoders",A)])
p("C14","Request payloads are encoded to the documented layout",
  "Encoding a request gives exactly: for requests that carry a password, its 6 characters in latin-1 followed by 4 filler characters; then for parameters the 16-bit little-endian first object number and buffer length, for archives by id the archive byte, 32-bit record id and 16-bit amount, for archives by time the archive byte, 16-bit amount and 6 BCD time bytes, for writing time the 6 BCD time bytes and flag byte 0x04; reading time has an empty payload and reading values only the password. A number that does not fit its field raises an error and is never truncated.",
  ["inputs"],"every 6-character password and every argument value in range and out of range",
  "Tests compare single fixed requests; field widths and byte order for large values are not covered.",
  [A,U],[("request encoders",A),("password padding",U)])
p("C15","BCD timestamps encode and decode exactly",
  "A timestamp from 2000 to 2099 is encoded as six BCD bytes second, minute, hour, day, month, year minus 2000, and a timestamp outside those years raises a ValueError instead of producing other bytes. Decoding six bytes takes the same fields back, takes daylight-saving flags from bit 7 (active) and bit 6 (supported) of the hour byte and ignores those bits in the hour, so decoding an encoded timestamp gives the same timestamp; anything that is not six valid BCD bytes of a real date raises ValueError.",
  ["inputs"],"every timestamp and every 6-byte string, and every other length",
  "Tests convert a few dates; digits, flag bits and the century boundary are combinatorial.",
  [U],[("BCD conversion",U)])
p("C16","Every parameter type is registered consistently",
  "Every parameter object type in the enumeration that has a parameter class is decodable through the parameter factory and has a schema in the schema factory, both factories cover the same types, each factory entry's class declares that same object type, each declared class is registered, and no two types share a class.",
  ["inputs"],"every parameter object type",
  "Tests decode one recording which contains only some types; a missing or crossed entry for another type is not noticed.",
  [PF,"elgas/parameters/enumerations.py"],[("factory maps",PF),("object types",  "elgas/parameters/enumerations.py")])
p("C17","Every parameter record is decoded at its documented offsets",
  "For every parameter type and every record content and permitted record length, each decoded field has the value given by its documented offset, width, byte order, bit mask and text or number encoding, optional trailing fields are None exactly when absent, and no field is left unset. Double-precision variants keep the layout of the single-precision ones, and each counter, flow, conversion and energy type keeps its documented value length.",
  ["inputs"],"every record content of every registered parameter type, with and without the optional trailing fields",
  "Tests decode one recorded record per type with many zero fields; a shifted, swapped or narrowed field survives them.",
  ["elgas/parameters"],[("record decoders","elgas/parameters")])
p("C18","The parameter stream is split exactly at record boundaries",
  "Parsing a concatenation of records (16-bit little-endian total length, type byte, body of length minus 3) yields one decoded object per record, in order, each decoded from exactly its own body by the class of its type, and consumes the stream completely. Parsing empty data, or a stream in which a record header (3 bytes) has an unknown type or a length below 3 or beyond the remaining data, raises ValueError instead of mis-slicing.",
  ["inputs"],"every sequence of records and every malformed length",
  "The parser test uses one recorded stream; arbitrary numbers of records and bad length fields are unbounded.",
  [PA,PF],[("stream parser",PA)])
p("C19","Each parameter schema agrees with its class",
  "For every parameter type the schema has exactly the fields of the class, each required and of a type that represents the decoded value without loss, allows None where the decoder can produce None, and loading builds an instance of that same class, so that dumping a decoded parameter (with finite numbers) and loading it again gives an equal parameter.",
  ["inputs"],"every registered parameter type and every decoded value of it",
  "Schema tests cover a few types and no None values for most; agreement must hold for all classes and fields.",
  ["elgas/parameters"],[("marshmallow schemas","elgas/parameters"),("schema factory",PF)])
p("C20","Reading parameters pages through all of them, once and in order",
  "Reading parameters starts at the requested object number, after each page that is not the last requests the next page starting at the previous start plus the number of objects just received, stops exactly when a page is marked as last, and parses the concatenation of all page data in order.",
  ["histories","inputs"],"every number of pages, every page size and content, every start number",
  "No test drives the client; the guarantee quantifies over an unbounded number of pages.",
  [CL],[("parameter paging loop",CL)])
p("C21","Client operations send the request they name and return its response",
  "Each client operation sends exactly one request of its own type (apart from paging) carrying the client's password and the caller's arguments unchanged, feeds every received chunk to the connection until it yields an event, and returns the content of that response.",
  ["inputs","histories"],"every operation, every argument value, every number of chunks the response arrives in",
  "The client has no tests; argument mix-ups are invisible without a device.",
  [CL],[("client operations",CL)])
p("C22","Transports report failures uniformly and never leak a handle",
  "On both transports a failing connect, send, receive or disconnect surfaces as the library's communication error and using an unconnected transport or connecting twice raises RuntimeError; no socket, OS or serial exception escapes. Disconnecting closes the underlying handle and leaves the transport disconnected on every path, also when closing or shutting down fails, and is a no-op when not connected; a failed connect leaves it disconnected.",
  ["fault_sequences","histories"],"every point at which an underlying operation can raise, in every connection state",
  "No transport tests exist; exceptional paths need fault injection at every call.",
  [T,"elgas/exceptions.py"],[("transport classes",T)],state=[("handle","the open socket or serial port, or none",T)])
p("C23","Receiving stops exactly at the terminator and fails on end of stream",
  "Receiving returns the bytes read from the link, in order and without loss, up to and including the first 0x0D, and reads nothing beyond it; it returns earlier only when the configured timeout has expired. When the link delivers no data (peer closed, or read timeout) it raises the communication error instead of looping or returning a frame.",
  ["inputs","fault_sequences"],"every byte sequence and chunking delivered by the link, including end of stream at every position",
  "No transport tests exist; partial reads and end of stream at each position are unbounded.",
  [T],[("receive loops",T)])
p("C24","Passwords and keys are masked in representations",
  "The password and encryption key held by a client or its connection are masked in the textual representation of the client, of the connection and of every request built by a client operation, however deeply nested.",
  ["configurations","inputs"],"every client configuration and every request a client operation creates",
  "One helper test prints a secret; that every holder of a secret wraps or hides it is a structural statement.",
  [U,CL,C,A],[("secret wrapper types",U),("client field converters",CL)])
p("C25","Connection parameters are range-checked at construction",
  "Creating a connection succeeds only if both 16-bit address parts are within 0 to 65535, both 8-bit address parts within 0 to 255, the password has at most 6 characters and the password id is within 801 to 849; every value outside raises ValueError and every value inside is accepted.",
  ["configurations"],"every integer value of each parameter and every password length",
  "Boundary values of six parameters are not tested.",
  [C],[("field validators",C)])
p("C26","Decoders do not modify their input and instances share no state",
  "Decoding frames, payloads, parameters or parameter streams, and computing redundancy or encryption, never modifies the caller's data, and two connections or clients never share buffer, protocol state or cipher context; no operation on one changes module-level tables.",
  ["inputs","histories"],"every call of every decoder or encoder and every pair of instances",
  "Sharing and mutation only show when objects are reused, which the tests do not do.",
  ["elgas"],[("decoders, default factories","elgas")])
p("C27","Protocol code performs no I/O",
  "Only the transport module touches sockets, serial ports or clocks: every other module computes only on its arguments, its own objects, logging and random filler, so the protocol core can be driven by any transport.",
  ["programs"],"every function of every module outside the transport",
  "A layering rule is about the absence of calls in all code, which no test can observe.",
  ["elgas"],[("module structure","elgas")])
p("C28","Device call registrations are decoded at the documented positions",
  "Decoding a device call message takes each field from its documented offset, width and encoding (guid, station text, BCD sim and modem numbers, protocol, addresses, signal, counters, times counted in seconds from 2000-01-01, serial number, IP address, battery values, firmware text) for every message content.",
  ["inputs"],"every message content of full length",
  "One recorded message is decoded in the tests; most of its counters are small so wide fields are not exercised.",
  [A,U],[("call message decoder",A)])
p("C29","Text and address fields decode for every byte content",
  "Decoding a device text of any bytes never fails: everything from the last zero byte on is dropped, other zero bytes become spaces, surrounding whitespace is removed and each remaining byte becomes the latin-1 character of the same value. An IP address of exactly four bytes decodes to the dotted decimal of those bytes in order, and any other length raises ValueError.",
  ["inputs"],"every byte string",
  "A few texts are tested; totality over all byte values and positions is not.",
  [U],[("text and address helpers",U)])
p("C30","Client operations finish within the configured timeout",
  "A client operation returns or raises within a small multiple of the configured transport timeout, for every behaviour of the peer.",
  ["schedules","fault_sequences"],"every timing of every peer",
  "Wall-clock behaviour under adversarial timing cannot be sampled exhaustively.",
  [T,CL],[("timeouts",T)])
p("C31","Corrupted frames are detected with the designed probability",
  "A frame altered in transit is rejected except with the small probability implied by its redundancy bytes, and altered encrypted payloads likewise.",
  ["inputs"],"every corruption of every frame",
  "Quantifies over all pairs of frames and corruptions and is a statement about code distance, not about paths in this code.",
  [F,U,S],[("redundancy",U)])
p("C32","Transports open the configured link and transmit data whole",
  "Connecting opens exactly the configured host and port, or the configured serial port at the configured baud rate, with the configured timeout (10 seconds unless given); sending hands every byte of its argument to the link once, in order and unmodified.",
  ["inputs","configurations"],"every host, port, baud rate, timeout and every byte string",
  "The tests never open a link, so wrong parameters, partial writes or altered bytes pass them.",
  [T],[("TCP and serial transports",T)])
p("C33","A receive gives up once the configured timeout has passed",
  "Once the configured timeout has passed since a receive was called, the receive does not read from the link again: a peer that keeps delivering single bytes without ever sending the terminator cannot keep it going. With no timeout configured it waits for the terminator.",
  ["inputs","schedules"],"every byte content, every number of bytes delivered before the deadline, every timeout from zero upwards",
  "No transport tests exist; the deadline may pass after any number of bytes.",
  [T],[("receive loops and Timeout",T)])
p("C34","Names and numbers of the protocol correspond one to one",
  "Every service, frame type, archive, device protocol, encryption key id, parameter type and device characteristic named by the library has the number the protocol assigns, each of these numbers is accepted by its enumeration and gives back that name, and each request and response class carries the service number of its operation. Every documented exception is an ElgasError and none is a kind of another.",
  ["inputs"],"every name and number the protocol assigns",
  "Tests touch a handful of numbers; a swapped or doubled number of any other stays unnoticed.",
  ["elgas/constants.py","elgas/parameters/enumerations.py",S,A,F,"elgas/exceptions.py"],[("enumerations","elgas/constants.py"),("parameter enumerations","elgas/parameters/enumerations.py")])
p("C35","Cut-off input is never decoded as if it were complete",
  "Decoding a parameter record, a call message, or an instantaneous values, parameters or archive response that ends before its fixed part does, or inside its optional part, raises an exception and never gives an object; likewise a device time response that ends within its six time bytes.",
  ["inputs"],"every content of every length shorter than a complete record or message, and every length ending inside the optional part",
  "Tests decode complete messages; cut-off ones are one per byte position and content.",
  ["elgas/parameters",A,U],[("record decoders","elgas/parameters"),("response decoders",A),("byte popping",U)])
p("C36","Configuration exchange schemas match their classes",
  "The schemas for exchanging configurations have exactly the fields of their classes: the parameter type is a required integer, the data a required dictionary, the series name required and possibly None, and a configuration is a list of nested configuration objects. The classes hold the values they are given, the series name being None unless given.",
  ["inputs","configurations"],"every configuration object and every field of the schemas",
  "No test uses these schemas.",
  ["elgas/integration.py"],[("configuration schemas","elgas/integration.py")])
p("C37","A client drives exactly the connection and transport it is configured with",
  "A client's connection has exactly the password, password id, encryption key and key id the client was created with and all four address parts zero, unless the caller gave it a connection, which it then uses. Creating a client does not touch its transport. Connecting and disconnecting the client calls connect or disconnect of its transport once, and nothing else of it, and raises its error.",
  ["configurations"],"every password, password id, key, key id and connection a client can be created with; every outcome of the transport's connect and disconnect",
  "The client's wiring is copied field by field; the tests look at one client with one password and never at its connection's fields or its addresses.",
  [CL],[("client fields and default connection",CL),("connect and disconnect",CL)])
p("C38","A device's answer reaches the caller as the device sent it",
  "When the device answers a client operation with a correct frame, plain or encrypted, escaped for the wire and received in any division, the operation returns exactly the documented fields of the frame's payload, whatever the addresses in the frame and wherever reserved bytes occur in it, and reading parameters parses the contents of all pages put together. When it answers with an error byte the operation raises the documented exception of a bit that is set.",
  ["inputs","configurations"],"every operation, every valid payload of the decided sizes with no or one reserved byte in any place, every address, key and key id",
  "It composes transport, buffering, un-escaping, frame checks, decryption, dispatch and decoding; tests of the parts use a few fixed frames and no test goes through a client with an encrypted answer.",
  [CL,C,F,U,S,A],[("client operations",CL),("receive path",C),("frame decoders",F),("un-escaping",U),("envelope reader",S),("response decoders",A)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
