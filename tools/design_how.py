HOW={
"C01":("Step starts from an arbitrary 16-bit state and feeds arbitrary bytes, so the step is inductive over write sequences; Long has single writes of every length; Split, Sum and Two cover resets, splitting and independence.","bitwise CRC-16/MCRF4XX written from the MAVLink specification","10 s"),
"C02":("Validate on arbitrary frames against one dialect with arbitrary metadata, against collections that answer in every way, and against the repository's dialects for every id; several validations in a row catch caches.","the statement's predicate over bytes with the reference CRC; the comparison of two CRCs is closed by GF(2) forms","105 s"),
"C03":("A valid frame with arbitrary contents and an arbitrary change confined to two neighbouring bytes; the change's syndrome is a linear form in its 16 bits, which z3 shows to be non-zero.","the statement","45 s"),
"C04":("FrameFromBytes on arbitrary buffers, then every accessor.","byte positions from the MAVLink format","5 s"),
"C05":("GetFrame / pack functions with arbitrary header values, payloads, seeds, failing encoders and answering patterns, and sequences of calls.","byte layout and reference CRC","5 s"),
"C06":("Every message type with arbitrary fields through GetFrame, FrameFromBytes, Validate, GetMessage.","field-wise equality of bit patterns (NaNs as a class)","20 s"),
"C07":("Pack of every type with arbitrary fields.","snapshot of wire order, sizes and offsets","10 s"),
"C08":("Unpack of every type, symbolic payload of every length, into objects with arbitrary earlier contents.","the same snapshot read backwards","20 s"),
"C09":("Pack, Unpack and GetFrame of every type for every 64-bit version number.","the statement","10 s"),
"C10":("GetMeta for every 32-bit id and GetMessage for every id a frame can carry, per dialect, also several lookups in a row.","snapshot of ids, seeds, lengths and names","10 s"),
"C11":("Collections of dialects that answer in every way (unknown, wrapped unknown, own errors, messages), up to five decodings in a row.","the statement","5 s"),
"C12":("Every text field: arbitrary previous contents, arbitrary strings, read back; the payload field of the variable-length message.","the statement, byte by byte","60 s"),
"C13":("Streams of arbitrary bytes (short), of arbitrary frames, junk and false starts (long), nested frames, frames of the greatest length, slow transports and consumers.","the reference scanner","50 s"),
"C14":("The same streams with arbitrary cuts, data together with the end, empty reads, datagrams that lose what is not taken, pauses.","the reference scanner on the uncut stream","50 s"),
"C15":("As C13 in pass-through mode.","the reference scanner in that mode","55 s"),
"C16":("Received frames are overwritten with arbitrary bytes, others are kept to the end of the stream.","equality with the stream's bytes at the end","40 s"),
"C17":("Arbitrary frames, channel capacities, failing writes of several kinds, slow writes, concurrent reading.","the list of frames submitted","30 s"),
"C18":("Every way of ending, alone, two at a time and after another, with consumers that are absent, take one frame, or everything, under all schedules within the delay bound; an hour of idling.","the statement; deadlock and panic detection","20 s"),
"C19":("Cancellation in every state of the loops, deadlines in virtual time.","the statement; a loop that does not end is a deadlock","20 s"),
"C20":("Streams, dialects and the UDP transport used from several goroutines in race mode.","happens-before by vector clocks","40 s"),
"C21":("Histories of packets from arbitrary addresses, failures and writes; concurrent use; hours of silence.","the first address heard","5 s"),
"C22":("Arbitrary bytes into every accessor, decoder, renderer and both reader modes.","absence of panics","25 s"),
"C23":("Decode and rebuild every type with arbitrary payloads.","equality of header and payload up to trailing zeros","20 s"),
"C24":("Streams and writes with loggers that fail, are slow or absent.","the scanner's frames / the accepted frames; log before delivery, after acceptance","10 s"),
"C25":("Text rendering with symbolic fields: the output is a sequence of literals and field terms.","each field's term once, under its name","15 s"),
"C26":("The helpers on arbitrary slices.","the statement, and identity of the backing memory","2 s"),
"C27":("Messages of every type through a writing and a reading stream; relays over two hops; two live streams.","equality with what was sent","45 s"),
"C28":("A stream fed piece by piece, the next piece only sent after the previous frames came; delivery takes no virtual time.","the scanner; waiting for more than came is a deadlock","40 s"),
"C29":("One direction held up while the other works, under all schedules within the delay bound and for an hour of virtual time.","deadlock detection and virtual time","10 s"),
"C30":("A stream with both loops on the UDP transport, over a socket stand-in: histories of packets from arbitrary addresses and frames written, several ways of ending under all schedules within the delay bound.","the scanner; the first address heard; the statement","25 s"),
}
