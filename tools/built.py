built("C01", T + "; derived output layout compared with the wire layout", "Holds for all field values and payload lengths.")
built("C02", T + "; acceptance facts of every decoder trace", "Lengths 0 to 15 one by one, all lengths from 16 as one symbolic case.")
built("C03", T + "; decoder evaluated on the encoder's derived layout", "Payload lengths up to the 16-bit length field.")
built("C05", T + "; loops summarised as GF(2)/additive transfer functions and compared as normal forms", "All lengths and contents.")
built("C04", T + "; substitution normal form and inductive step on the un-escaping loop's summary", "Induction over the frame length is the standing argument; each step is decided for all continuations.")
built("C06", T + "; structure of the derived output term", "AES-CBC is an uninterpreted invertible block function; padding content is arbitrary.")
built("C07", T + "; acceptance facts and composition of encrypter and decrypter", "AES-CBC is an uninterpreted invertible block function; 128-bit keys.")
built("C13", T + "; decoded fields compared with the documented layout as terms", "Payloads at least as long as their fixed part, of any length and content.")
built("C14", T + "; derived payload layout compared with the documented layout", "Any arguments; passwords of six characters; the four filler bytes are free.")
built("C15", T + "; both directions compared with the definition and composed", "Every timestamp and every byte string.")
built("C28", T + "; decoded fields compared with the documented layout as terms", "Messages of at least 141 bytes with any content.")
built("C29", T + "; derived text compared with the definition", "All lengths and contents.")
built("C16", T + "; both registries evaluated and queried for every type and class", "All types of the enumeration and all parameter classes.")
built("C17", T + "; decoded fields compared with a layout table as terms", "Every content of every permitted length; time windows with 0, 1, 2, 3 and 7 rows quick, 0 to 255 thorough. Two types whose decoder can never succeed are known findings.")
built("C18", T + "; one arbitrary iteration of the stream loop, and streams of up to three records of any size", "Inductive step for any number of records; malformed tails after up to two records; parsers used up to three times.")
built("C19", T + "; declared schema fields compared with class and layout, load hooks evaluated on arbitrary values", "marshmallow field semantics are assumed as documented; finite numbers.")
built("C08", T + "; bytes sent compared with the escaped specified frame, cipher uninterpreted", "Any payload up to 60000 bytes, any addresses, any non-empty key.")
built("C09", T + "; transition relation derived for every state and event class", "All states reachable from a new object, all event classes, all service numbers.")
built("C10", T + "; every step of sending returning or raising", "Six exception classes at each of four steps, plus the real serialisers on arbitrary numbers and passwords.")
built("C11", T + "; receive path on one symbolic error byte", "Every error byte, service, plain and encrypted.")
built("C12", T + "; receive path on arbitrary chunks, buffer contents compared as terms", "Inductive step over chunks; frame decoding replaced by each possible outcome.")
built("C25", T + "; constructor evaluated on arbitrary integers and text", "All integers, all password lengths.")
built("C20", T + "; paging loop analysed with recorded requests against an arbitrary peer", "1 to 5 pages with every page size, up to 300 pages quick and 1000 thorough.")
built("C21", T + "; every exchange with events available after any number of chunks", "All five operations; each transport or connection failure at each step; loop step for any number of chunks.")
built("C24", T + "; taint of password and key through log, text and exception sinks", "All operations of client, application and connection; repr and str of every class holding a secret.")
built("C22", T + "; every path of the transports with the socket and serial calls as arbitrary external outcomes", "Both transports, every failure of every external call.")
built("C23", T + "; receive loop analysed against an arbitrary stream, and its loop summary for any length", "Exact up to 60 bytes quick and 150 thorough, one segmentation of 2000/20000 bytes, any length through the loop summary; the clock is an arbitrary non-decreasing integer.")
built("C32", T + "; arguments of the external calls compared with the configuration as terms", "Any host, port, baud rate, timeout and data.")
built("C26", T + "; write effects on caller data, module tables and other instances", "Every public decoder, encoder, connection and client operation, on arbitrary values; a module-level table that starts empty and is filled as a cache would be is left undecided.")
built("C27", T + "; name resolution of every module outside the transport, and external-call effects", "Every function of every module outside the transport.")
built("C33", T + "; receive loop followed with a clock passing the deadline after any read, and its loop summary for any number", "Deadline after 1 to 12 bytes exactly (40 thorough), after any number by the loop summary.")
built("C34", T + "; module-level tables evaluated and looked up both ways", "Every name and number of the tables.")
built("C35", T + "; every decoder evaluated on every too short length", "All lengths below the complete one, any content; time windows of 0, 1, 2 and 5 rows (up to 255 thorough).")
built("C36", T + "; declared schema fields compared with the classes", "marshmallow field semantics are assumed as documented.")
built("C37", T + "; fields of the client's connection, its first frame and the calls of its transport compared with the configuration", "Any password, ids and key; every outcome of the transport's connect and disconnect.")
built("C38", T + "; the whole receive path of every operation on frames derived from the protocol's definition, nothing replaced but the transport's calls and the redundancy functions", "Payloads of one to three sizes per operation with arbitrary content, divided at four places, a reserved byte in each single position; the redundancy functions stand for their definitions (C05); AES-CBC is an uninterpreted invertible block function.")
