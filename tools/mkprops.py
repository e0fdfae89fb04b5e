#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json
F="binate/src/frame/"; C=F+"codec/"
CODEC=[C+x+".rs" for x in "cancel error keepalive lease metadata_push payload request_channel request_fnf request_n request_response request_stream resume resume_ok setup".split()]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Decoding arbitrary bytes never panics, aborts or hangs",
  "For every byte sequence, in every build profile and however the bytes are split over buffer chunks, decoding a frame terminates and either yields a frame or returns a decode error. No input a peer can send makes the decoder panic, overflow, recurse without bound or loop.",
  ["inputs"],"every byte sequence of every length, every Buf implementation that honours the Buf contract, debug and release builds",
  "The tests decode fourteen well-formed frames; malformed, truncated and unsupported inputs are never fed to the decoder.",
  [F+"mod.rs",F+"visit.rs"]+CODEC,
  [("remaining() guard in front of every read",F+"visit.rs"),("exhaustive dispatch over frame types",F+"mod.rs Frame::decode")],
  observe=["Frame::decode"])
p("C02","Truncated and unknown frames are rejected with the right error",
  "Input that ends before a fixed-width field, or before as many bytes as a length prefix announces, is rejected as incomplete, never accepted with invented or shortened contents. Input whose 6-bit type code is not one the library implements is rejected as an unrecognised frame type carrying exactly that code. Inputs that are not malformed in either way, nor on a forbidden stream, are accepted.",
  ["inputs"],"every byte sequence; every cut point of every frame; all 64 type codes",
  "One test covers one unknown type code at the header helper; no test cuts a frame short.",
  [F+"mod.rs",F+"visit.rs",F+"decode.rs",F+"flags.rs"]+CODEC,
  [("InComplete guard",F+"visit.rs incomplete_if_less_than"),("UnrecognizedFrameType",F+"visit.rs eat_flags")],
  observe=["Frame::decode"])
p("C03","Stream-id rules are enforced when decoding",
  "SETUP, LEASE, KEEPALIVE, METADATA_PUSH, RESUME and RESUME_OK frames are accepted only on stream 0; ERROR frames with a setup, resume or connection error code are accepted only on stream 0, and those with a request-level code (APPLICATION_ERROR, REJECTED, CANCELED, INVALID) only on a non-zero stream. A violation is reported as an invalid stream id carrying the offending id and what was expected, and no other stream-id check rejects a frame.",
  ["inputs"],"every frame type, error code and stream id",
  "No test decodes a frame on a wrong stream id; the ERROR codec has no test at all.",
  [F+"mod.rs",C+"error.rs",C+"keepalive.rs",C+"lease.rs"],
  [("stream-0 guard",F+"mod.rs Frame::decode"),("validate_stream_id",C+"error.rs")],
  observe=["Frame::decode"])
p("C04","Decoding an encoded frame gives back the frame",
  "For every frame that can be constructed through the public API (an ERROR frame: on a stream its code allows), encoding it and decoding the bytes yields an equal frame and consumes all the bytes, where data of length zero counts as absent data. Re-encoding any decoded frame and decoding again yields the same frame.",
  ["inputs"],"every combination of constructor/builder arguments of all 14 frame types, with and without metadata, data, resume token and flags",
  "Each codec test encodes one frame with all optional parts present; absent or empty parts, other flag combinations and the ERROR frame are not exercised.",
  [F+"mod.rs",F+"visit.rs",F+"u24.rs",F+"version.rs","binate/src/payload.rs"]+CODEC,
  [("paired Encode/Decode impls",C),("eat_payload / payload writer",F+"visit.rs")],
  observe=["Frame::decode","Encode::encode"])
p("C05","The announced length is the number of bytes encoded",
  "For every frame, payload, version and 24-bit integer, the length reported before encoding equals exactly the number of bytes encoding appends, and converting to bytes yields exactly that many bytes. A value reports itself empty exactly when that length is zero.",
  ["inputs"],"every constructible value of every encodable type",
  "Tests compare the length for one fully populated instance per frame type, which hides any dependence on an absent optional part.",
  [F+"encode.rs",F+"mod.rs","binate/src/payload.rs",F+"u24.rs",F+"version.rs"]+CODEC,
  [("Encode::len beside Encode::encode",C)],observe=["Encode::len","Encode::to_bytes"])
p("C06","Encoded frames follow the RSocket wire layout",
  "Every encoded frame is the RSocket 1.0 layout of its type: a 32-bit stream id (0 for connection-level frames), the 6-bit type code and 10 flag bits (I=0x200, M=0x100, F/R=0x80, C/L=0x40, N=0x20), then that type's fields in order, in big-endian and with the specified widths, then the optional 24-bit metadata length (present exactly when M is set, on frames that carry metadata and data), the metadata and the data.",
  ["inputs"],"every constructible frame of all 14 types",
  "Tests only check that the library agrees with itself on one frame per type; a layout changed on both sides, or in an untested optional part, passes.",
  [F+"flags.rs",F+"u24.rs",F+"version.rs","binate/src/payload.rs"]+CODEC,
  [("Encode impls",C),("Flags constants",F+"flags.rs"),("layout diagrams in rustdoc",C)],observe=["Encode::encode"])
p("C07","Conforming frames from any peer decode to what they say",
  "Every frame laid out as RSocket 1.0 specifies, including ones this library would not itself produce, decodes to a frame whose accessors return exactly the transmitted field values, flags, metadata and data. Reserved bits above 31-bit and 63-bit fields and undefined flag bits are ignored and do not disturb any other field.",
  ["inputs"],"every conforming byte layout of all 14 types, any field values, any reserved-bit values",
  "Tests decode only bytes the library encoded itself, from one instance per type.",
  [F+"visit.rs",F+"mod.rs",F+"flags.rs"]+CODEC,
  [("eat_* readers",F+"visit.rs"),("Decode impls",C)],observe=["Frame::decode"])
p("C08","31- and 63-bit fields never leak into the reserved bit",
  "Whatever integers a caller passes, in debug or release builds, no frame is ever produced or encoded whose stream id, request-n, time-to-live, request count, keepalive time, lifetime or position has its reserved top bit set; values within range are kept unchanged. Error codes use all 32 bits and are kept unchanged.",
  ["inputs","configurations"],"every integer argument of every constructor and builder method; debug and release profiles",
  "Tests pass small in-range numbers and run in debug builds only.",
  CODEC+[F+"visit.rs"],
  [("& MAX_U31 / & MAX_U63 in constructors",C),("masking readers",F+"visit.rs")],observe=["frame constructors","frame accessors","Encode::encode"])
p("C09","Length prefixes are never truncated",
  "Every length-prefixed field on the wire (resume token, MIME types, metadata) carries exactly the field's length; a value too long for its prefix (65,535, 255 and 16,777,215 bytes) is refused by a panic when the frame is built or encoded and never emitted with a shortened length. Encoding has no other panic.",
  ["inputs","configurations"],"every token, MIME type and metadata length; debug and release builds",
  "Tests use fields of at most 18 bytes.",
  [C+"setup.rs",C+"resume.rs",F+"u24.rs"]+CODEC,
  [("length asserts in builders",C+"setup.rs"),("U24::from_usize range check",F+"u24.rs")],observe=["SetupFrameBuilder","ResumeFrame::new","Encode::encode"])
p("C10","Frame accessors return what the frame was built with",
  "For every frame type and every in-range argument, each accessor of a constructed frame returns exactly the corresponding constructor or builder argument (or the documented default when it was not set), setting one builder field leaves the others alone, and the last setting of a field wins.",
  ["inputs","histories"],"every constructor argument, every sequence of builder calls, every accessor",
  "The tests never call the frame accessors; they compare whole frames, which a swapped or wrong accessor passes.",
  CODEC+["binate/src/consts.rs"],
  [("constructors and getters",C),("SetupFrameBuilder",C+"setup.rs")],observe=["frame accessors"])
p("C11","Frame flags match frame contents",
  "In every constructed or decoded frame that carries metadata optionally, the metadata-present flag on the wire is set exactly when metadata is present (even if empty); a SETUP frame has the resume flag exactly when it has a resume token; FOLLOWS, COMPLETE, NEXT, RESPOND and LEASE are set exactly when the caller asked for them, and no other flag is ever set by a constructor.",
  ["inputs","histories"],"every combination of constructor arguments and builder call sequences",
  "Each test checks one flag combination; nothing ties flags to contents in general.",
  CODEC+[F+"flags.rs",F+"visit.rs"],
  [("flag computation in constructors",C)],observe=["Encode::encode","frame accessors"])
p("C12","Frame-type codes and dispatch agree everywhere",
  "The four conversions between frame types and codes (from value, from header bits, to value, to header bits) are mutually inverse on exactly the codes the RSocket protocol assigns, and undefined codes map to nothing. Decoding, encoding, measuring and the published type constants all use the same type for the same frame.",
  ["inputs"],"all 2^16 header words, all frame types and frame variants",
  "Tests check one direction per table and one variant of the frame-level dispatch; the value and bits tables are checked for one entry.",
  [F+"flags.rs",F+"mod.rs"]+CODEC,
  [("FrameType tables",F+"flags.rs"),("Frame dispatch",F+"mod.rs")],observe=["FrameType","Frame::decode","Encode for Frame"])
p("C13","A payload reports exactly what was put into it",
  "A payload returns exactly the data and metadata it was built with (absent stays absent, empty stays present), its length is the sum of both, it is empty exactly when that length is zero, splitting it returns both parts, its text views are the UTF-8 reading of the right part, and encoding it writes metadata before data.",
  ["inputs"],"every combination of data and metadata, absent, empty or not",
  "Two doc examples with both parts set.",
  ["binate/src/payload.rs"],[("Payload / PayloadBuilder","binate/src/payload.rs")],observe=["Payload","PayloadBuilder"])
p("C14","Fragmenting a payload loses, adds and reorders nothing",
  "Chunking a payload by n > 0 yields fragments whose metadata parts concatenate to the original metadata and whose data parts concatenate to the original data, no part longer than n, every part but the last exactly n bytes, and no further (even empty) piece of a part follows its last bytes. The iteration ends, stays ended afterwards, and never yields a fragment without content from a payload that has content left; n = 0 panics.",
  ["inputs"],"every payload, every fragment size",
  "One payload is chunked with one size.",
  ["binate/src/payload.rs"],[("PayloadChunks::next","binate/src/payload.rs")],observe=["Payload::chunks","PayloadChunks"])
p("C15","The announced number of fragments is exact",
  "At every point of chunking a payload, the announced number of remaining fragments (and the iterator's size hint) equals the number of fragments still to come, for payloads of every size including ones beyond 2^24 bytes and ones with empty parts.",
  ["inputs","histories"],"every payload length, every fragment size, every position in the iteration",
  "Thirteen fragment sizes for one 12-byte payload; nothing is large enough to leave the exact range of a float.",
  ["binate/src/payload.rs"],[("ExactSizeIterator for PayloadChunks","binate/src/payload.rs")],observe=["PayloadChunks::len","PayloadChunks::size_hint"])
p("C16","Reassembly restores the fragmented payload",
  "Reassembling a list of encoded fragments yields the concatenation, in arrival order, of their metadata and, separately, of their data, for each of the five frame types that carry request or response payloads; a fragment that fails to decode fails the whole reassembly with that error.",
  ["inputs","histories"],"every list of encoded fragments of any length and type",
  "One list of three fire-and-forget fragments.",
  ["binate/src/connection/buf.rs"],[("TryInto<Payload> for BufList","binate/src/connection/buf.rs")],observe=["TryInto<Payload>"])
p("C17","The buffer list consumes exactly what it is asked to",
  "Advancing or copying n bytes out of the fragment buffer list removes exactly the first n bytes across its buffers, in order, and returns exactly those; the remaining count is always the sum of what its buffers hold, and asking for more than that panics instead of returning short. The chunk and vectored views show a prefix of the content, all of it when not every slot is used.",
  ["inputs","histories"],"every list of non-empty buffers, every n",
  "Five tests on a three-buffer list.",
  ["binate/src/connection/buf.rs"],[("Buf for BufList","binate/src/connection/buf.rs")],observe=["Buf for BufList"])
p("C18","Stream ids are valid, of the right parity and not in use",
  "Every stream id handed out is between 1 and 2^31-1, odd from a client-side and even from a server-side provider for the provider's whole life including wrap-around, and was not a key of the given store when it was checked in that same call.",
  ["inputs","histories","schedules"],"every number of calls including past wrap-around, every store, every interleaving of callers",
  "Tests take two ids from a fresh provider and test wrap-around for the client only.",
  ["binate/src/connection/stream_id.rs"],[("fetch_add(2) & mask, skip loop","binate/src/connection/stream_id.rs next_stream_id")],
  [("counter","next candidate id","binate/src/connection/stream_id.rs")],["StreamIdProvider::next_stream_id"])
p("C19","Concurrent callers never receive the same stream id",
  "Two calls on one provider, from any threads, return different ids unless 2^30 ids were drawn in between: each returned id comes from one indivisible step that takes it and moves the provider past it. Successive ids of a provider advance by exactly two, apart from ids skipped because they are in use or zero.",
  ["schedules"],"every interleaving of any number of threads",
  "A loom test explores two threads of one call each with one store and checks only the final counter, not distinctness.",
  ["binate/src/connection/stream_id.rs"],[("single atomic read-modify-write","binate/src/connection/stream_id.rs")],None,["StreamIdProvider::next_stream_id"])
p("C20","The request-permit counter loses no update and never wraps",
  "From any threads, every decrement lowers the shared permit count by one and returns the count just before it, and every addition raises it by the amount added (a request-n value, so at most 2^31-1), or to the maximum 2^31-1 if it would exceed it and never to a lower value; no update is lost or applied twice. A new counter holds the requested count without its top bit, and the queries report the current count without changing it.",
  ["schedules","inputs"],"every interleaving of operations, every amount",
  "Tests are single-threaded with amounts of at most 42.",
  ["binate/src/connection/counter.rs"],[("atomic read-modify-write operations","binate/src/connection/counter.rs")],None,["RequestCounter"])
p("C21","MIME type names and values convert both ways",
  "Every well-known MIME type converts to a name that converts back to the same type, every recognised name converts to a type whose name is that same string, and every other string gives the unparseable type, whose name is the empty string. Both conversions always terminate.",
  ["inputs"],"all MIME type values, all strings",
  "The only test converts one unrecognised string; no well-known type is converted in either direction.",
  ["binate/src/mimetype.rs"],[("From<&str> and From<WellKnownMimeType>","binate/src/mimetype.rs")],None,["WellKnownMimeType"])
p("C22","Every error is classified by exactly the right predicates",
  "For every kind of error, exactly the predicates that describe it are true: each protocol error answers to its own predicate, to the protocol predicate and (the three setup errors) to the setup predicate; decode errors answer only to the decode predicate; I/O errors answer to none of them.",
  ["inputs"],"all error kinds, all predicates",
  "No test calls any predicate.",
  ["binate/src/error.rs"],[("is_* predicates","binate/src/error.rs")],None,["Error::is_*"])
p("C23","Error codes and their names agree across the library",
  "Each RSocket error has one code, the one the protocol assigns, in the error-code enumeration, in the error-frame constants and in the text an error displays; the displayed text of each protocol error names that error and its own code, and no two errors share a text.",
  ["inputs"],"all error codes and kinds",
  "No test reads a code or formats an error.",
  ["binate/src/error.rs",C+"error.rs"],[("Code discriminants, description()","binate/src/error.rs"),("ErrorFrame constants",C+"error.rs")],None,["Code","ErrorFrame::*","Display for Error"])
p("C24","Errors keep their cause",
  "An error created from a decode failure or an I/O failure is of the matching kind, keeps the original failure (as its kind or its source), and shows the cause's text in its display; no conversion into the library's error type drops or replaces the cause.",
  ["inputs"],"every decode error and every I/O error",
  "One test converts one decode error and checks only that some source exists.",
  ["binate/src/error.rs","binate/src/frame/decode.rs"],[("From conversions, source(), Display","binate/src/error.rs")],None,["From<DecodeError>","From<io::Error>","std::error::Error::source","Display"])
p("C25","24-bit integers and versions are exact",
  "A 24-bit integer built from any number up to 16,777,215 converts back to that number in both widths and encodes as its three big-endian bytes, and larger numbers panic. A protocol version encodes as its major then its minor number, prints as major.minor, defaults to 1.0, and versions are totally ordered by major first and minor second, consistently with equality.",
  ["inputs"],"all 32- and 64-bit integers, all pairs of versions",
  "Tests convert the maximum and one value past it; version comparison and display are untested.",
  [F+"u24.rs",F+"version.rs"],[("U24 conversions",F+"u24.rs"),("Ord for Version",F+"version.rs")],None,["U24","Version"])
p("C26","Fire-and-forget sends the whole payload on one stream",
  "A fire-and-forget request draws one new stream id and sends the payload on it either as one frame or, when fragmentation is on, as its fragments in order, with the follows flag on every fragment but the last; it always sends at least one frame, and the first send error stops it and is returned. A metadata push sends exactly one metadata-push frame with the given metadata and returns that send's outcome.",
  ["inputs","fault_sequences"],"every payload, every fragment size, every position of a send failure",
  "The session code has no tests.",
  ["binate/src/connection/socket.rs"],[("fire_and_forget / metadata_push","binate/src/connection/socket.rs")],None,["DuplexConnection::send_and_forget","DuplexConnection::send"])
p("C27","A dead peer closes the connection",
  "When no frame has arrived for longer than the keepalive timeout, the session reports the timeout, closes the underlying connection and stops its watcher; when the transport reports that it closed or failed, the session handles it once per report. Reports are taken from one subscription to the connection's status.",
  ["schedules","fault_sequences","histories"],"every timing of frame arrivals and status changes",
  "The session code has no tests, and no test runs a clock or a transport.",
  ["binate/src/connection/socket.rs"],[("watcher tasks","binate/src/connection/socket.rs RSocketMachine::new")],None,["DuplexConnection::close"])
p("C28","Public values can be shared between threads and do not change",
  "Every public value type (frames, payloads, errors, iterators, counters, id providers) can be sent to and shared between threads and holds no borrowed data; frames, payloads and versions have no interior mutability and no public way to alter a value after it is built other than consuming it; the library contains no unsafe code of its own.",
  ["schedules","programs"],"every program using the public API",
  "Tests instantiate the thread-safety bounds for three types; a missing bound or a mutable back door is a property of all client programs.",
  ["binate/src/lib.rs","binate/src/payload.rs","binate/src/error.rs",F+"mod.rs"]+CODEC,[("private fields, &self accessors",C),("auto traits","all public types")],None,["public API types"])
p("C29","Encoding only appends, and codecs have no side effects",
  "Encoding a value appends its bytes to the given buffer and leaves what the buffer already held untouched, gives the same bytes every time and does not alter the value. Encoding and decoding depend on nothing but their arguments: no clock, randomness, environment, I/O, threads or global state.",
  ["inputs","histories","schedules"],"every value and every previous buffer content",
  "All tests encode into an empty buffer once.",
  [F+"encode.rs",F+"mod.rs",F+"visit.rs","binate/src/payload.rs"]+CODEC,[("BufMut put_* calls only",C)],None,["Encode::encode","Frame::decode"])
p("C30","Equal values are the same values, and clones equal their originals",
  "Two frames are equal exactly when they have the same type and every part of them is equal (whether empty data and no data count as the same is left open), and the same holds for payloads, versions, 24-bit integers, flag sets and the library's enumerations. A clone equals its original, reports the same parts and, for a frame, encodes to the same bytes, and cloning leaves the original as it was.",
  ["inputs"],"every pair of values, with and without each optional part",
  "Tests compare a value with its decoded copy, which never shows two different values that compare equal.",
  CODEC+["binate/src/payload.rs",F+"version.rs",F+"u24.rs",F+"flags.rs"],[("derived or written PartialEq and Clone",C)],None,["PartialEq::eq","Clone::clone"])
p("C31","Flag sets follow their bits",
  "Each frame flag is the bit RSocket assigns to it, its is_ predicate and contains() are true exactly when that bit is set, and bits() gives back every bit put in. Converting an arbitrary 16-bit value keeps exactly the defined bits (truncating) or succeeds exactly when no other bit is set (checked), and union, intersection, difference, complement, insert, remove, toggle and set act bit by bit on the defined bits while is_empty, is_all, intersects and contains answer from them.",
  ["inputs"],"all pairs of 16-bit values",
  "Tests use a few named flags one at a time.",
  [F+"flags.rs"],[("Flags",F+"flags.rs")],None,["Flags"])
p("C32","A new session acts in its role and on its own connection",
  "A client session draws odd and a server session even stream ids, and until a fragment size is set a fire-and-forget payload of any size goes out whole in one frame. Every call a session makes goes to the connection it was given, and close() closes that connection, whatever other handles and tasks of the session exist. Handles cloned from a session share its stream ids, its table of streams and its request handler, and setting a request handler replaces the one in force.",
  ["inputs","histories"],"both roles, every connection, timeout and payload",
  "The session code has no tests.",
  ["binate/src/connection/socket.rs"],[("RSocketMachine::new and close","binate/src/connection/socket.rs")],None,["DuplexConnection::send_and_forget","DuplexConnection::close"])
p("C33","A peer cannot make the library reserve memory for bytes it never sent",
  "Decoding, reassembling fragments and taking bytes out of a buffer list never ask for more memory at once than the bytes that are actually there, plus at most 64 KiB, whatever lengths the input announces. This also holds on the way to an error or a panic.",
  ["inputs"],"every byte sequence, every announced length",
  "Tests feed well-formed frames only, and none observes allocation.",
  [F+"visit.rs",F+"mod.rs","binate/src/connection/buf.rs"]+CODEC,[("length check before copying",F+"visit.rs eat_bytes"),("copy_to_bytes","binate/src/connection/buf.rs")],None,["Frame::decode","BufList::copy_to_bytes"])
p("C34","Decode errors say what was refused",
  "The text of a decode error names what it refused: the unrecognized type code, or the stream id that was found and the one that was expected. The texts of the three kinds of decode error differ.",
  ["inputs"],"every decode error",
  "No test formats a decode error.",
  [F+"decode.rs"],[("Display for DecodeError",F+"decode.rs")],None,["DecodeError"])
p("C35","A decoded frame can be passed on",
  "Every byte sequence that Frame::decode accepts yields a frame that can be encoded again without a panic, into exactly as many bytes as its len() says. Decoding those bytes is accepted, uses all of them, and gives a frame equal to the first.",
  ["inputs"],"every byte sequence accepted by the decoder",
  "Tests start from frames that the builders made, never from bytes a peer chose.",
  CODEC+[F+"visit.rs",F+"mod.rs",F+"flags.rs"],[("Decode and Encode of one frame",C)],None,["Frame::decode","Encode::encode","Encode::len"])
p("C36","A relayed frame keeps its bytes",
  "A frame decoded from bytes laid out as RSocket 1.0 specifies is encoded again as those same bytes, field for field, whatever its ids, lengths and contents. Only reserved bits, which come out cleared, and the ignore flag and flag bits undefined for its type, which may come out cleared, can differ.",
  ["inputs"],"every conforming layout from any peer",
  "Tests encode only frames their own builders made.",
  CODEC+[F+"visit.rs",F+"mod.rs",F+"flags.rs"],[("Decode and Encode of one frame",C)],None,["Frame::decode","Encode::encode"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
import re
for d in P:
    assert len(d["title"])<=80,d["title"]
    n=len(re.findall(r'\.(?:\s|$)',d["statement"])); assert n<=3,(d["id"],n)
