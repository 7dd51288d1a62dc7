C("C01", [
    H("c01.Step", "one write of up to 8 arbitrary bytes from every one of the 65536 states (inductive step)", thorough={"n": 24}, tbounds="up to 24 bytes from every state"),
    H("c01.Split", "three writes of arbitrary lengths, total up to 18 bytes, after a reset", thorough={"n": 12}, tbounds="three writes of up to 12 bytes each"),
    H("c01.Sum", "prefixes up to 5 bytes with any spare capacity, every state", thorough={"n": 12}, tbounds="prefixes up to 12 bytes"),
    H("c01.Long", "one write of every length up to 300 arbitrary bytes from every state, and another one after it", thorough={"n": 1100}, tbounds="every length up to 1100"),
    H("c01.Two", "two objects fed in turns with up to 3 bytes each", thorough={"n": 12}, tbounds="up to 12 bytes each"),
    H("c01.Huge", "one write of 4097, 32770 and 65540 bytes, four of them arbitrary, from every state", steps=20000000),
], "Bounded, but Step starts from every state, so any sequence of writes of up to n bytes is covered by induction; longer single writes are covered up to the Long bound.")

C("C02", [
    H("c02.One", "every payload length 0..255 of both versions, one dialect with arbitrary metadata, arbitrary frame bytes", quick={"dense": 255}),
    H("c02.Signed", "payloads up to 4 bytes, any flags, with and without signature"),
    H("c02.Collection", "collections of up to 3 dialects with arbitrary answers, payloads up to 2 bytes", thorough={"k": 4}, tbounds="up to 4 dialects"),
    H("c02.Wide", "collections of 40 dialects of which one or none answers, with arbitrary metadata", thorough={"k": 300}, tbounds="collections of 300 dialects"),
    H("c02.Real", "every dialect of the repository, every 24/8-bit id, payload lengths around the limits"),
    H("c02.History", "up to 5 validations in a row of two frames by collections that define the same message differently, payloads up to 2 bytes"),
    H("c02.Many", "1100 frames of hundreds of messages validated by two collections in turns, the first two payload bytes of each arbitrary", quick={"k": 1100}, thorough={"k": 5000}, steps=2000000000, tbounds="5000 frames"),
], "Every input within the bounds; the checksum comparison is decided by a GF(2) normal form confirmed by z3 on samples.", [DIST, COMPLETE])

C("C03", [
    H("c03.Pair", "every position of a neighbouring pair, payload lengths from 0 to 255 (sampled above 60), arbitrary contents and corruption", quick={"dense": 60}, thorough={"dense": 255}, tbounds="every payload length"),
    H("c03.Flag", "the flag bytes of version 2 frames with room for a signature, payloads up to 4 bytes"),
], "Every value of the frame and of the corruption at each length and position explored.", [COMPLETE], ["pairs straddling the last content byte and the first checksum byte (not guaranteed by the CRC with a seed in between)"])

C("C04", [
    H("c04.Recognise", "buffers up to 16 bytes, any announced length, copy and no copy", thorough={"n": 40}, tbounds="buffers up to 40 bytes"),
    H("c04.V1", "every payload length 0..255, arbitrary bytes", quick={"dense": 255}),
    H("c04.V2", "every payload length 0..255, arbitrary bytes, signed or not", quick={"dense": 255}),
], "Every frame content at each explored length.", [COMPLETE])

C("C05", [
    H("c05.Build", "every payload length 0..255, arbitrary header fields, payload and seed", quick={"dense": 255}),
    H("c05.Spare", "payloads up to 6 bytes in slices with room behind them"),
    H("c05.Refuse", "up to 3 dialects with arbitrary answers, any version, failing encoders", thorough={"k": 4}),
    H("c05.Wide", "collections of 40 dialects of which one or none answers", thorough={"k": 300}, tbounds="collections of 300 dialects"),
    H("c05.History", "5 frames built in a row by collections with different seeds, payloads up to 2 bytes, arbitrary header fields"),
    H("c05.Many", "1100 frames built in a row, the first two payload bytes of each arbitrary", quick={"k": 1100}, thorough={"k": 4000}, steps=2000000000, tbounds="4000 frames"),
    H("c05.Again", "one message object built into 4 frames with other contents each time, payloads up to 5 bytes, both versions", thorough={"n": 64}),
], "Every value within the bounds.", [], ["payloads longer than 255 bytes"])

C("C06", [
    H("c06.Trip", "every message type of every dialect, arbitrary field values, both versions, payload truncation lengths at the end of the payload"),
    H("c06.Many", "500 messages of every kind in a row, one arbitrary byte each, some frames waiting while others are built, all kept to the end", preempt=-1, quick={"k": 500}, thorough={"k": 3000}, steps=2000000000, tbounds="3000 messages"),
    H("c06.Again", "every message type: one object filled with arbitrary values and sent three times"),
], "Every field value of every type; trailing-zero truncation is followed for every length the encoder can produce.", [DIST])

C("C07", [
    H("c07.Encode", "every message type, arbitrary field values, every truncation length", thorough={"room": 40}),
    H("c07.Twice", "every fixed-length message type, two arbitrary messages"),
    H("c07.Again", "every message type: one object filled with arbitrary values and encoded three times"),
], "Every field value of every type.", [DIST])

C("C08", [
    H("c08.Decode", "every message type, every payload length up to the maximum, arbitrary payload and earlier contents"),
    H("c08.Concrete", "payload lengths 0, 1, minimum, maximum-1, maximum"),
    H("c08.Long", "payloads longer than the maximum, up to 255 bytes"),
    H("c08.Two", "every message type, two or three frames decoded one after the other by its dialect"),
], "Every payload of every type.", [DIST], ["the values of payload bytes beyond the definition"])

C("C09", [
    H("c09.Encode", "every message type, every 64-bit version number"),
    H("c09.Decode", "every message type, every 64-bit version number a frame can report"),
    H("c09.Build", "every message type of every dialect, every version number"),
], "Every version number and field value.", [DIST])

C("C10", [
    H("c10.Meta", "every 32-bit id in every dialect"),
    H("c10.Decode", "every 24-bit id (version 2) and 8-bit id (version 1) in every dialect"),
    H("c10.Again", "four lookups in a row of a known id or one near it and any 32-bit id, every dialect"),
    H("c10.Objects", "every message type"),
], "Complete over ids; the reference is a snapshot of the definitions.", [DIST])

C("C11", [
    H("c11.Order", "collections of up to 3 dialects answering in any way, payloads up to 2 bytes", thorough={"k": 4}, tbounds="up to 4 dialects"),
    H("c11.Wide", "collections of 40 dialects of which one or none answers, in any way", thorough={"k": 300}, tbounds="collections of 300 dialects"),
    H("c11.Unknown", "frames of both versions with every payload length 0..255", quick={"dense": 255}),
    H("c11.History", "up to 5 frames decoded in a row by collections of up to 2 dialects answering in any way, payloads up to 2 bytes"),
    H("c11.Many", "1100 frames of hundreds of messages with arbitrary payloads decoded by four collections in turns", quick={"k": 1100}, thorough={"k": 4000}, steps=2000000000, tbounds="4000 frames"),
], "Every answer pattern within the bounds.", [COMPLETE])

C("C12", [
    H("c12.Store", "every text field, stored strings of length 0, 1, around the field size and beyond, arbitrary contents and earlier field contents", thorough={"all": 1}, tbounds="every string length up to size+3"),
    H("c12.Fetch", "every text field, arbitrary contents"),
    H("c12.Payload", "the variable-length message, payloads of 10 lengths from 0 to 300, arbitrary contents and earlier contents"),
], "Every content at each explored length.", [DIST])

C("C22", [
    H("c22.Frames", "complete frames of every length, arbitrary bytes", quick={"dense": 255}),
    H("c22.Messages", "every message type, payload length 0..255 symbolic, arbitrary bytes, decoded and rendered"),
    H("c22.Texts", "every text accessor of every type on payloads of length 0, minimum, maximum and 255"),
    H("c22.Header", "streams of 3 to 700 bytes beginning with any header, both reader modes, every 17th announced length", preempt=-1, thorough={"step": 1}, tbounds="every announced length"),
    H("c22.Starts", "streams of 16 bytes whose first 4 are start bytes or arbitrary, both reader modes", preempt=-1, thorough={"n": 5, "rest": 13}, tbounds="streams of 18 bytes whose first 5 are start bytes or arbitrary"),
    H("c22.Unknown", "every id no dialect knows, payloads of length 0, 1, 7"),
    H("c22.Hostile", "a stream of 300 frames of every kind, or of 300 invalid frames of as many senders and messages with noise, both reader modes, everything delivered is used", preempt=-1, thorough={"n": 500}, tbounds="500 frames", steps=20000000),
], "Absence of panics for every input within the bounds (bounds checks, nil and type assertions are decided symbolically).", [DIST, COMPLETE])

C("C23", [
    H("c23.Relay", "every message type, arbitrary payload, both versions"),
    H("c23.Many", "500 frames of messages of every kind in a row, one arbitrary byte each, some built anew after later ones were decoded", preempt=-1, quick={"k": 500}, thorough={"k": 3000}, steps=2000000000, tbounds="3000 frames"),
], "Every payload of every type at the lengths explored.", [DIST])

C("C25", [
    H("c25.Messages", "every message type, arbitrary field values, marker set and not"),
    H("c25.Frames", "frames with payloads up to 7 bytes and unknown messages", thorough={"n": 64}),
    H("c25.Twice", "two arbitrary messages of every type rendered in turns"),
    H("c25.Again", "every message type: one object filled with arbitrary values and rendered three times"),
], "The text is followed symbolically: each shown value is the field's term, not a sample.", [DIST])

C("C26", [
    H("c26.Truncate", "every slice up to 40 bytes", thorough={"n": 120}),
    H("c26.TruncateLong", "slices up to 300 bytes with arbitrary ends"),
    H("c26.CStr", "every slice up to 40 bytes", thorough={"n": 120}),
    H("c26.CStrLong", "slices up to 300 bytes"),
    H("c26.Huge", "slices of 4097, 32770 and 65540 zeros or ones with arbitrary bytes in three places"),
], "Every content up to the stated lengths.")

SCHED = "schedules are explored up to a bound on deviations from round-robin scheduling; code between synchronisation operations runs undisturbed (C20 shows the absence of data races within the same bounds)"
EOF = "a frame cut off by the end of the transport makes io.EOF an io.ErrUnexpectedEOF"
TIME = "time stands still while any goroutine can run (computing takes no time)"
LINK = "closing the transport makes a pending read return"

C("C13", [
    H("c13.Scan", "every stream of 7 to 9 arbitrary bytes, given at once", preempt=-1, thorough={"n": 10, "delivery": 3}, tbounds="every stream of 8 to 10 bytes, at once, byte by byte, and in pieces of 5 bytes"),
    H("c13.Bytewise", "every stream of 7 or 8 arbitrary bytes given byte by byte or in pieces of 5 bytes, the end with the last of them", preempt=-1, thorough={"n": 9}, tbounds="8 or 9 bytes"),
    H("c13.Pieces", "streams of 2 pieces (known, corrupted, unknown frames of both versions, signed or not, junk, false starts) with arbitrary contents and a known frame after them, at once, byte by byte and in pieces of 5 bytes", preempt=-1, quick={"k": 2, "delivery": 3}, thorough={"k": 3, "delivery": 3}, tbounds="streams of 3 such pieces"),
    H("c13.Nested", "frames of every kind inside what known and unknown frames announce as their payload", preempt=-1),
    H("c13.Long", "3 frames of the greatest length, known or unknown, of any version, back to back", preempt=-1, quick={"lens": 1}, thorough={"lens": 2, "k": 4}, tbounds="4 frames of payload lengths 254 and 255"),
    H("c13.Slow", "3 arbitrary valid frames, whole, in pieces or byte by byte, transport and consumer each taking no time, a millisecond or an hour (virtual time)", preempt=-1, quick={"timed": 1}, thorough={"timed": 1, "k": 5}, tbounds="5 frames"),
    H("c13.Many", "a stream of 300 valid, unknown and corrupted frames and noise, up to two payload bytes of each arbitrary, at once, in pieces of 1000 and of 17 bytes", preempt=-1, thorough={"n": 550, "pieces": 3}, tbounds="550 pieces"),
    H("c13.Hostile", "a stream of 300 invalid frames of as many senders and messages, alone or with valid frames in between, and 4500 bytes of noise, at once and in pieces of 17 bytes", preempt=-1, thorough={"n": 600, "pieces": 3}, tbounds="600 invalid frames and 9000 bytes of noise, also byte by byte", steps=40000000),
    H("c13.Volume", "a stream of 66000 short frames, one in a thousand with an arbitrary byte, both reader modes, one round-robin schedule", preempt=-2, steps=2000000000, quick={"n": 66000}, thorough={"n": 200000}, tbounds="200000 frames"),
    H("c13.Side", "two streams with contents and dialects of their own, one after the other, one interrupted at any place, byte by byte in turns, or one ending first", preempt=-2),
], "Every content within the bounds; the reference is a scanner written from the statement, the deciding queries go through GF(2) rewriting and z3.", [TIME, EOF])

C("C14", [
    H("c14.Cuts", "4 streams of 2 to 4 arbitrary pieces, cut at any two places, the end alone or together with the last bytes", preempt=-1, thorough={"k": 3, "modes": 4}, tbounds="cut at any three places, in both reader modes"),
    H("c14.Sizes", "the same streams in pieces of every size from 1 to 14 with a first piece of any size", preempt=-1, thorough={"n": 40}, tbounds="every size from 1 to 40"),
    H("c14.Patterns", "two short frames, cut in every possible way within the first 9 bytes", preempt=-1, thorough={"n": 14}, tbounds="cut in every way within the first 14 bytes"),
    H("c14.Datagrams", "up to 2 datagrams of up to 4096 bytes full of frames", preempt=-1, thorough={"k": 3}, tbounds="up to 3 datagrams"),
    H("c14.Straddle", "4 frames with up to 255 payload bytes over two datagrams, cut at 24 places", preempt=-1, thorough={"n": 120, "lens": 4}, tbounds="cut at 120 places"),
    H("c14.Slow", "an arbitrary piece and a known frame cut at any place and 5 bytes later, no time, a millisecond or an hour (virtual time) passing before each piece", preempt=-1, quick={"timed": 1}, thorough={"timed": 1, "second": 2}, tbounds="cut at any place and 2 bytes later"),
    H("c14.Many", "a stream of 250 valid, unknown and corrupted frames and noise in pieces of 8 sizes from 2 to 4096 bytes and of changing sizes, both reader modes", preempt=-1, thorough={"n": 500}, tbounds="500 pieces"),
    H("c14.Empty", "an arbitrary piece and a known frame with 300 empty reads before any one of the bytes", preempt=-1, thorough={"n": 2000}, tbounds="2000 empty reads"),
], "Every content at every cut explored.", [TIME, EOF])

C("C15", [
    H("c15.Scan", "every stream of 8 or 9 arbitrary bytes", preempt=-1, thorough={"n": 10}, tbounds="every stream of 9 or 10 bytes"),
    H("c15.Pieces", "streams of 2 pieces of any kind with arbitrary contents and a known frame after them", preempt=-1, quick={"delivery": 3}, thorough={"k": 3, "delivery": 3}, tbounds="streams of 3 such pieces"),
    H("c15.Lengths", "frames of every version with payload lengths the dialect does not allow", preempt=-1),
    H("c15.Nested", "frames that are unknown, too long, too short or corrupted with a frame inside what they announce as payload", preempt=-1),
    H("c15.Long", "3 frames of the greatest length, known or unknown, of any version, back to back", preempt=-1, thorough={"k": 4}, tbounds="4 frames"),
    H("c15.Slow", "two frames of any kind in pieces of 9 bytes, transport and consumer taking no time, a millisecond or an hour (virtual time)", preempt=-1, quick={"timed": 1}),
    H("c15.Many", "a stream of 300 valid, unknown and corrupted frames and noise, up to two payload bytes of each arbitrary, at once, in pieces of 1000 and of 17 bytes", preempt=-1, thorough={"n": 550}, tbounds="550 pieces"),
    H("c15.Hostile", "a stream of 300 invalid frames of as many senders and messages, alone or with valid frames in between, and 4500 bytes of noise, at once and in pieces of 17 bytes", preempt=-1, thorough={"n": 600, "pieces": 3}, tbounds="600 invalid frames and 9000 bytes of noise, also byte by byte", steps=40000000),
    H("c15.Side", "two streams with contents and dialects of their own, one after the other, one interrupted at any place, byte by byte in turns, or one ending first", preempt=-2),
], "Every content within the bounds.", [TIME, EOF])

C("C16", [
    H("c16.Stream", "3 frames of either extreme length, whole or in pieces, one of them overwritten on receipt", preempt=-1, thorough={"k": 4, "lens": 4}, tbounds="4 frames"),
    H("c16.Many", "300 frames kept to the end of the stream, whole, in pieces or one at a time", preempt=-1, thorough={"many": 600}, tbounds="600 frames"),
    H("c16.Unknown", "payload lengths 0..6 and samples up to 255, frame and message overwritten with arbitrary bytes"),
    H("c16.Copies", "copied frames of up to 11 bytes", thorough={"n": 40}, tbounds="up to 39 bytes"),
    H("c16.Volume", "9000 frames kept to the end of the stream, some overwritten, both reader modes, one round-robin schedule", preempt=-2, steps=2000000000, quick={"n": 9000}, thorough={"n": 70000}, tbounds="70000 frames"),
    H("c16.Side", "two streams with contents and dialects of their own, one after the other, one interrupted at any place, byte by byte in turns, or one ending first", preempt=-2),
], "Every content within the bounds.")

C("C17", [
    H("c17.All", "up to 3 arbitrary frames of payload length 0 or 255, every capacity of the channel, with and without the reading loop", preempt=-1, thorough={"k": 4, "lens": 3}, tbounds="up to 4 frames of payload length 0, 3 or 255"),
    H("c17.Fails", "up to 3 arbitrary frames, any one of which the transport rejects in several ways", preempt=-1, thorough={"k": 4, "lens": 3}, tbounds="up to 4 frames"),
    H("c17.Both", "one frame written while two are read, under every schedule with up to 3 delays", conc=True, delays=3, thorough={"frames": 2}, tdelays=4, tbounds="two frames written, up to 4 delays"),
    H("c17.Slow", "3 arbitrary frames, every capacity of the channel, producer and transport each taking no time, a millisecond or an hour (virtual time)", preempt=-1, quick={"timed": 1}, thorough={"timed": 1, "k": 4}, tbounds="4 frames"),
    H("c17.Many", "600 frames with up to two arbitrary payload bytes each, some of them several times, three capacities of the channel, with and without a failure at the end", preempt=-1, thorough={"k": 1200}, tbounds="1200 frames"),
    H("c17.Repeat", "one frame object submitted 5 times, as it is and with other contents, next to an equal one and another one", preempt=-1),
    H("c17.Volume", "66000 short frames, one in a thousand with an arbitrary byte, two capacities of the channel, one round-robin schedule", preempt=-2, steps=2000000000, quick={"n": 66000}, thorough={"n": 200000}, tbounds="200000 frames"),
    H("c17.Side", "arbitrary frames written to two streams in turns, one of which fails, ends or comes later", preempt=-1),
], "Every content; schedules within the stated bound.", [TIME, SCHED, LINK, "transports do not report success for a short write"])

C("C18", [
    H("c18.One", "each way of ending, no, one or a steady consumer, up to one frame waiting, up to 2 delays", conc=True, delays=2, tdelays=4, tbounds="up to 4 delays"),
    H("c18.Two", "any two ways of ending at the same time, with and without consumer, up to 2 delays", conc=True, delays=2, tdelays=3, tbounds="up to 3 delays"),
    H("c18.After", "any way of ending after any other, up to 2 delays", conc=True, delays=2, tdelays=3, tbounds="up to 3 delays"),
    H("c18.Users", "up to three users closing before or while the loops run, up to 3 delays", conc=True, delays=3, tdelays=4, tbounds="up to 4 delays"),
    H("c18.Alone", "one loop alone, each way of ending, up to 3 delays", conc=True, delays=3, tdelays=4, tbounds="up to 4 delays"),
    H("c18.Idle", "a stream left alone for an hour of virtual time, then each way of ending", preempt=-1, quick={"timed": 1}),
    H("c18.Many", "any one or two ways of ending after 300 frames read and 300 written", preempt=-1, quick={"k": 300}, thorough={"k": 600}, tbounds="after 600 frames each"),
    H("c18.Within", "a user closing from within what the stream calls: the transport, the logger, a dialect, up to 2 delays", conc=True, delays=2, tdelays=3, tbounds="up to 3 delays"),
    H("c18.Side", "one stream ended in any way while another one is at work and ends in any other way later, up to 1 delay", conc=True, delays=1, tdelays=2, tbounds="up to 2 delays"),
], "Every schedule within the bound on delays; deadlocks and panics are detected.", [TIME, SCHED, LINK])

C("C19", [
    H("c19.Reader", "cancelling while up to 2 frames wait for a consumer that is absent or leaves, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c19.Pending", "cancelling during a transport read, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c19.Writer", "cancelling while up to 2 frames are submitted, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c19.Queued", "cancelling while up to 3 submitted frames wait in a channel that stays open, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c19.Before", "contexts cancelled from the start, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c19.Derived", "contexts of the standard library of several kinds and derived ones, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c19.Both", "one context for both loops, up to 2 delays", conc=True, delays=2, tdelays=4, tbounds="up to 4 delays"),
    H("c19.Other", "cancelling after the user closed, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c19.Deadline", "contexts with a deadline in virtual time, consumer absent", preempt=-1, quick={"timed": 1}),
    H("c19.Many", "cancelling after 300 frames read or written", preempt=-1, thorough={"k": 1000}, tbounds="after 1000 frames"),
], "Every schedule within the bound on delays; a loop that does not end is a deadlock of the explored program.", [TIME, SCHED, LINK])

C("C20", [
    H("c20.All", "both loops, a consumer changing its frames, a producer and three ways of ending, happens-before race detection, up to 1 delay", conc=True, race=True, delays=1, tdelays=2, tbounds="up to 2 delays"),
    H("c20.Closers", "one loop, two closers and readers of the reason, up to 2 delays", conc=True, race=True, delays=2, tdelays=3, tbounds="up to 3 delays"),
    H("c20.Streams", "two streams side by side, up to 1 delay", conc=True, race=True, delays=1, tdelays=3, tbounds="up to 3 delays"),
    H("c20.UDP", "up to two readers, two writers and a close, up to 3 delays", conc=True, race=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c20.Codec", "two goroutines validating, decoding, rendering and building messages of every type of every dialect", conc=True, race=True, delays=1, quick={"messages": 1000}, tdelays=2, tbounds="up to 2 delays"),
], "A pair of conflicting accesses unordered by synchronisation in any explored schedule is reported, whether or not it happened at the same time.", [SCHED, LINK])

C("C21", [
    H("c21.History", "every history of 3 packets, failures and writes with arbitrary addresses and data of up to 2 bytes", preempt=-1, quick={"k": 3}, thorough={"k": 4}, tbounds="every history of 4 events"),
    H("c21.Sizes", "packets of 10 sizes up to 2048 bytes with arbitrary contents", preempt=-1),
    H("c21.Close", "closing with and without failure", preempt=-1),
    H("c21.Concurrent", "two peers read by two goroutines while another writes, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c21.Silence", "three packets and two answers, any addresses, with no time, a millisecond or an hour (virtual time) in between", preempt=-1, quick={"timed": 1}, thorough={"timed": 1, "k": 4}, tbounds="four answers"),
    H("c21.Many", "2000 packets of growing sizes from many peers with arbitrary addresses, each answered", preempt=-1, quick={"k": 2000}, thorough={"k": 10000}, steps=2000000000, tbounds="10000 packets"),
    H("c21.Side", "every history of 4 packets and writes on two transports, arbitrary addresses", preempt=-1, quick={"k": 4}, thorough={"k": 6}, tbounds="every history of 6 events"),
], "Every address and content within the bounds; the socket is a stand-in behind net.ListenPacket.", [TIME, SCHED], ["peers that are not UDP addresses", "the operating system's sockets"])

C("C24", [
    H("c24.Read", "streams of one arbitrary piece and a known frame, both reader modes, loggers that fail never, always or once, no logger", preempt=-1, quick={"k": 1}, thorough={"k": 2}, tbounds="streams of two arbitrary pieces"),
    H("c24.Write", "up to 3 arbitrary frames, any one of which the transport rejects", preempt=-1, thorough={"k": 4}, tbounds="up to 4 frames"),
    H("c24.Order", "two frames read under every schedule with up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c24.Slow", "three frames in either direction, logger, transport and consumer taking no time, a millisecond or an hour (virtual time)", preempt=-1, quick={"timed": 1}),
    H("c24.Many", "300 frames in either direction, loggers that fail never, always or once", preempt=-1, thorough={"k": 550}, tbounds="550 frames"),
    H("c24.Repeat", "the same frame read or written 4 times, another one in between", preempt=-1),
    H("c24.Volume", "9000 frames in either direction, one round-robin schedule", preempt=-2, steps=2000000000, quick={"n": 9000}, thorough={"n": 70000}, tbounds="70000 frames"),
    H("c24.Side", "two streams with contents and dialects of their own, one after the other, one interrupted at any place, byte by byte in turns, or one ending first", preempt=-2),
], "Every content; schedules within the stated bound.", [TIME, SCHED, EOF])

C("C27", [
    H("c27.Messages", "every message type with arbitrary field values followed by a heartbeat, encoded at full or half length, as datagrams and as one piece", preempt=-1, thorough={"how": 4}, tbounds="also byte by byte and in pieces of 7 bytes"),
    H("c27.Relay", "up to 2 arbitrary frames over 2 streams, with noise between them, as datagrams or cut in pieces", preempt=-1, quick={"lens": 2}, thorough={"k": 3, "lens": 3}, tbounds="up to 3 frames of payload lengths 1, 40 and 255"),
    H("c27.Live", "two streams in full operation, one echoing what the other sends, up to 2 delays", conc=True, delays=2, tdelays=3, thorough={"frames": 2}, tbounds="2 echoes, up to 3 delays"),
    H("c27.Slow", "3 frames, producer and consumer each taking no time, a millisecond or an hour (virtual time)", preempt=-1, quick={"timed": 1}, thorough={"timed": 1, "frames": 6}, tbounds="6 frames"),
    H("c27.Many", "300 frames with up to two arbitrary payload bytes each over two streams, as datagrams, at once, byte by byte or in pieces", preempt=-1, thorough={"k": 600}, tbounds="600 frames"),
], "Every content within the bounds.", [TIME, DIST, SCHED])

C("C28", [
    H("c28.Pieces", "2 pieces of any kind fed one after the other, whole or byte by byte, both reader modes", preempt=-1, quick={"lens": 1}, thorough={"lens": 2, "hows": 3}, tbounds="also longer payloads, and in pieces of 9 bytes"),
    H("c28.Partial", "a frame together with any part of the next one, payload lengths 0, 2 and 255, both reader modes", preempt=-1),
    H("c28.Burst", "20 short or 16 long frames at once", preempt=-1, thorough={"k": 60}, tbounds="60 short frames at once"),
    H("c28.Prompt", "two pieces and two known frames, the last bytes of which come no time, a millisecond or an hour (virtual time) later; delivery takes no virtual time", preempt=-1, quick={"timed": 1}, thorough={"timed": 1, "k": 2}, tbounds="any pieces before both frames"),
    H("c28.Many", "300 frames sent one at a time, some in two parts or after noise, each taken before the next is sent", preempt=-1, thorough={"k": 900}, tbounds="900 frames"),
    H("c28.Side", "a frame that arrives at one stream while another one waits for data, the rest of a frame, or a consumer, or has ended", preempt=-1),
], "Every content within the bounds; waiting for more than has been announced is a deadlock of the explored program.", [TIME, LINK])

C("C29", [
    H("c29.Consumer", "two frames written while up to two received ones wait for an absent consumer, up to 2 delays", conc=True, delays=2, tdelays=4, tbounds="up to 4 delays"),
    H("c29.Writer", "two frames received while a write is in progress, up to 2 delays", conc=True, delays=2, tdelays=4, tbounds="up to 4 delays"),
    H("c29.UDP", "two writes and a close while up to two reads are pending, up to 3 delays", conc=True, delays=3, tdelays=5, tbounds="up to 5 delays"),
    H("c29.Slow", "three frames in one direction while the other is held up for an hour of virtual time", preempt=-1, quick={"timed": 1}),
], "Every schedule within the bound on delays; a direction that waits is a deadlock of the explored program.", [TIME, SCHED, LINK])

C("C30", [
    H("c30.Packets", "one piece of any kind and a frame in packets of any sizes from peers with arbitrary addresses, both reader modes", preempt=-1, quick={"k": 1}, thorough={"k": 2}, tbounds="two pieces of any kind"),
    H("c30.History", "every history of 3 packets (of one or two frames, arbitrary addresses) and frames written (arbitrary contents, payload lengths 0, 1 and 255), three ways of ending", preempt=-1, quick={"k": 3}, thorough={"k": 4}, tbounds="every history of 4 events"),
    H("c30.Ends", "closing, cancelling or a socket failure while a read is pending and a frame perhaps about to be written, up to 2 delays", conc=True, delays=2, tdelays=3, tbounds="up to 3 delays"),
    H("c30.Live", "packets of two peers while two frames are written, up to 2 delays", conc=True, delays=2, tdelays=3, tbounds="up to 3 delays"),
    H("c30.Large", "a packet of ten sizes up to 4096 bytes full of frames, among others, one round-robin schedule", preempt=-2),
    H("c30.Many", "a conversation of 200 packets from arbitrary addresses and 100 answers, 150 empty packets in a row, one round-robin schedule", preempt=-2, thorough={"n": 600}, tbounds="600 packets"),
], "Every address and content within the bounds; the socket is a stand-in behind net.ListenPacket.", [TIME, SCHED], ["peers that are not UDP addresses", "the operating system's sockets"])
