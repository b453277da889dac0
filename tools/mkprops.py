#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to review)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":w} for n,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/protobuf/qprotobufserializer.cpp"; SP="src/protobuf/qprotobufserializer_p.h"; IT="src/protobuf/qprotobufselfcheckiterator.h"
AS="src/protobuf/qabstractprotobufserializer.h"; ASP="src/protobuf/qabstractprotobufserializer_p.h"; ASC="src/protobuf/qabstractprotobufserializer.cpp"
TY="src/protobuf/qtprotobuftypes.h"; LZ="src/protobuf/qprotobuflazymessagepointer.h"
H2="src/grpc/qgrpchttp2channel.cpp"; CL="src/grpc/qabstractgrpcclient.cpp"; CLH="src/grpc/qabstractgrpcclient.h"; NC="src/grpc/qgrpcchannel.cpp"
QT="src/qttypes/qtprotobufqttypes.cpp"
p("P01","Scalar values are encoded exactly as the protobuf wire format prescribes",
 "For every value of every scalar field type, the binary serializer emits exactly the protobuf encoding of that value: minimal base-128 varints (two's complement at the field's own width for plain integers, zig-zag for sint), little-endian fixed-width words for fixed and floating types. A zero integer or false boolean field emits no bytes at all; a non-zero one always emits its field.",
 ["inputs"],"every value of every one of the 13 numeric scalar types",
 "The value spaces have up to 2^64 elements; the tests sample about ten values per type.",
 [S,SP],[("serializeBasic<T>, serializeVarintCommon<T>, serializeWrapper",SP)],observe=["bytes returned by serializing a message"])
p("P02","Scalar decoding inverts encoding and accepts every valid wire encoding",
 "For every buffer in which a complete encoding of a scalar starts at the current position, decoding yields exactly the encoded value (modulo the field width, so over-long and sign-extended ten-byte varints are accepted) and consumes exactly the bytes of that encoding. In particular decoding the encoding of any value gives the value back.",
 ["inputs"],"every byte buffer, position and value of each scalar type",
 "Tests decode a handful of minimal encodings; non-minimal, sign-extended and boundary encodings and every surrounding context are not sampled.",
 [SP,IT],[("deserializeVarintCommon, deserializeBasic<T>",SP)])
p("P03","Decoding arbitrary bytes never touches memory outside the input",
 "For every byte sequence handed to the decoder, truncated or hostile ones included, no read happens outside the storage of the input byte array, the read position never moves backwards or past the end, no arithmetic or shift is undefined, and a field that does not fit in the remaining bytes is reported by an exception instead of being delivered.",
 ["inputs"],"every byte sequence of every length below 2 GiB and every starting position in it",
 "The space of malformed inputs is unbounded and an out-of-bounds read usually goes unnoticed by a test; the tests try a few truncated buffers.",
 [SP,S,IT],[("self-checking iterator",IT),("deserializeLengthDelimited, deserializeBasic, skip*, decodeHeader",SP)])
p("P04","Field headers round-trip for every field number and wire type",
 "For every field number from 1 to 2^29-1 and every wire type in use, the emitted field header is the minimal varint of number*8+type, and decoding it gives the same number and type back and consumes exactly its bytes. A header with field number zero, a group wire type or an unassigned wire type is rejected.",
 ["inputs"],"all 2^29-1 field numbers times all wire types, and all header bytes on the decoding side",
 "Tests use a few small field numbers; multi-byte headers near the 2^29 limit and invalid headers are not covered systematically.",
 [SP],[("encodeHeader, decodeHeader",SP)])
p("P05","Unknown fields are skipped by exactly their own length",
 "When a message carries a field the schema does not know, exactly the bytes of that field's payload, as determined by its wire type, are skipped, so decoding resumes at the next field header; a payload that does not fit or whose length is undefined raises an exception.",
 ["inputs"],"every wire type, payload and surrounding buffer",
 "Tests skip a few fixed payloads; payload lengths and multi-byte length prefixes are unbounded.",
 [S],[("skipVarint, skipLengthDelimited, skipSerializedFieldBytes",S)])
p("P06","Strings, bytes and sub-messages are framed by their exact length",
 "Every length-delimited value is emitted as the varint of its byte length followed by precisely its bytes (UTF-8 for strings), and decoding returns precisely that many bytes and stops right after them, for every content and every length.",
 ["inputs"],"every byte string below 2 GiB and every surrounding buffer",
 "Lengths crossing each varint size boundary and arbitrary contents cannot be enumerated by tests.",
 [SP,S],[("serializeLengthDelimited, prependLengthDelimitedSize, deserializeLengthDelimited",SP),("serializeObject/deserializeObject",S)])
p("P07","Packed repeated scalars keep every element, in order",
 "A non-empty list of numeric scalars is emitted as one length-delimited block holding the concatenated element encodings in list order, with zero elements present as explicit zeros; decoding such a block yields exactly the same list in the same order. An empty list emits nothing.",
 ["inputs"],"every list length and every element value of each repeated scalar type",
 "List length and content are unbounded; tests use lists of a few elements.",
 [SP],[("serializeListType<V>, deserializeList<V>",SP)])
p("P08","Repeated strings and byte arrays keep every element, in order",
 "A list of strings or byte arrays is emitted as one separately tagged, length-delimited field per element, in order and including empty elements; each such field met while decoding appends exactly one element to the elements already collected.",
 ["inputs"],"every list length and every element content",
 "List length and content are unbounded; tests use a few short elements.",
 [S,SP],[("serializeListType<QString/QByteArray>, deserializeList<QString/QByteArray>",S)])
p("P09","Every built-in field type is bound to its own codec and wire type",
 "Each of the built-in scalar and repeated field types is handled by the encoder, the decoder and the wire type that belong to that type, so the wire type announced in the field header always matches the payload that follows and the decoder reads what the encoder wrote.",
 ["inputs","programs"],"every built-in field type and every value of it",
 "A wrong pairing can agree on the sampled values (for instance on small positive integers) and only differ elsewhere.",
 [S,SP],[("handlers table filled by the serializer's constructor, wrapSerializer, serializeWrapper",S)])
p("P10","A message is the concatenation of its own fields, each under its own number",
 "Serializing a message emits, for each field of the message exactly once, the encoding of that field's current value under that field's number, and nothing else; a nested message, list, map or enum field is delegated with its own field number, and a field whose encoder declines (absent value) contributes no bytes.",
 ["inputs","programs"],"every message type, every number of fields and every field value",
 "The set of message types and field values is unbounded; tests serialize a few fixed message types.",
 [S],[("serializeMessage, serializeProperty, serializeObject",S)])
p("P11","Each received field updates exactly the field with that number",
 "While decoding, each record updates exactly the message field that carries the record's number with the decoded value and leaves all other fields as they are, records are processed in order until the input is exhausted, records with unknown numbers change nothing, and a record with an invalid header aborts decoding with an exception.",
 ["inputs","histories"],"every message type and every sequence of records",
 "Record sequences (orders, repetitions, unknown numbers in between) are unbounded.",
 [S],[("deserializeMessage, deserializeProperty",S)])
p("P12","Map fields keep every entry with key as field 1 and value as field 2",
 "Each map entry is emitted as one length-delimited field under the map's number containing the key as field 1 and the value as field 2. Decoding an entry reads key and value in any order, leaves a missing one at its default, ignores unknown entry fields, rejects an invalid entry header, and inserts or replaces exactly that key without disturbing the other entries.",
 ["inputs"],"every map, key, value and every order of the entry's parts",
 "Entry layouts produced by other implementations (swapped, missing, extra parts) and map sizes are unbounded.",
 [S,ASP],[("serializeMapPair, deserializeMapPair",S),("serializeMap, deserializeMap",ASP)])
p("P13","Nested messages and repeated messages are kept whole and in order",
 "A nested message is emitted as one length-delimited field holding that message's encoding, a list of messages as one such field per non-null element in list order; decoding creates a fresh message filled from exactly the delimited bytes and, for lists, appends it to the elements already decoded.",
 ["inputs"],"every nesting, list length and message content",
 "Nesting and list length are unbounded.",
 [S,ASP],[("serializeObject, serializeListObject, deserializeObject, deserializeListObject",S),("serializeList, deserializeList, serializeObject, deserializeObject templates",ASP)])
p("P14","Enum values survive serialization unchanged",
 "Every enum value, negative ones included, is emitted as the varint of its 64-bit two's complement value (omitted when zero), every list of enum values as one packed block in order, and decoding gives the same value or list back, appended to what was decoded before for repeated fields.",
 ["inputs"],"every enum value and every list of enum values",
 "Negative and large enum values and list lengths are not enumerable.",
 [S,ASP],[("serializeEnum, serializeEnumList, deserializeEnum, deserializeEnumList",S+", "+ASP)])
p("P15","Decoding replaces the target's previous content completely",
 "After decoding into an existing message, the message holds exactly what the bytes say: fields absent from the bytes are at their defaults regardless of what the message held before, also when decoding fails with an exception, which is passed on to the caller.",
 ["inputs","histories"],"every previous content of the target and every byte sequence",
 "Stale data only shows up for particular combinations of old content and new bytes.",
 [AS],[("QAbstractProtobufSerializer::deserialize<T>",AS)])
p("P16","The type-handler registry is race-free and returns the last registration",
 "Every access to the process-wide table of message handlers happens while holding the rights that exclude a concurrent modification, every right taken is given back on every path, no two operations can wait for each other, and looking up a type returns the handlers of its most recent registration, or empty handlers when there is none.",
 ["schedules","histories"],"every interleaving of registrations and lookups from any number of threads",
 "Interleavings cannot be enumerated by tests; a missing lock shows up rarely.",
 [ASC],[("HandlersRegistry::registerHandler/findHandler",ASC)],state=[("m_registry","metatype id to handlers"),("m_readLock/m_writeLock","reader permits and writer mutex")])
p("P17","Repeated message fields compare by content",
 "Two repeated or map fields of messages compare equal exactly when they have the same size and pairwise equal elements (same keys for maps); the comparison never dereferences a null element and is defined for every pair of values.",
 ["inputs"],"every pair of lists or maps, null elements and different key sets included",
 "Combinations of sizes, keys and nulls are unbounded; tests compare a few lists.",
 [TY],[("repeatedValueCompare overloads",TY)])
p("P18","Lazily created sub-messages behave like ordinary values",
 "A lazily created sub-message is created at most once and on first access, every access path yields that same object, and moving, copying, assigning and comparing it preserves content and ownership for every combination of absent and present operands.",
 ["inputs","histories"],"every sequence of operations and every absent/present combination",
 "Operation sequences are unbounded and most access paths are not exercised by tests.",
 [LZ],[("QProtobufLazyMessagePointer<T>",LZ)])
p("P19","Every gRPC request is framed with its exact payload length",
 "Every request body sent over HTTP/2 is the zero compression flag, the payload length as a four-byte big-endian number and then exactly the payload, addressed to the path of the service and method.",
 ["inputs"],"every payload below 2 GiB, every service and method name",
 "Payload sizes are unbounded; tests send a few short messages.",
 [H2],[("QGrpcHttp2ChannelPrivate::post",H2)])
p("P20","A gRPC call's outcome reflects the network and server status",
 "For every finished reply: a network error gives the mapped failure status and no payload, a non-zero server status gives that status and no payload, and only otherwise the payload after the five-byte prefix is delivered with status Ok. A result is delivered exactly once, as data or as an error with the server's message.",
 ["inputs","fault_sequences"],"every network error code, server status and body",
 "Most network errors cannot be provoked in a test environment.",
 [H2],[("processReply, StatusCodeMap, finished handlers",H2)])
p("P21","Streamed messages survive every fragmentation of the byte stream",
 "For every sequence of length-prefixed messages and every way the transport cuts the byte stream into chunks, each message is delivered exactly once, unmodified, in order, as soon as its last byte has arrived while the call is still running, and never with bytes of a neighbouring message; no byte outside the received data is ever read.",
 ["inputs","schedules"],"every message sequence and every chunking of it",
 "Chunking is chosen by the network; tests see the one or two chunkings a loopback server produces.",
 [H2],[("stream readyRead handler, getExpectedDataSize",H2)],state=[("activeStreamReplies","bytes of the incomplete message per stream")])
p("P22","Status objects preserve code and message",
 "A status object reports exactly the code and message it was made with, copies and assignments preserve both, and two statuses compare equal exactly when their codes are equal.",
 ["inputs"],"every code and message",
 "Sampled only incidentally by the tests.",
 ["src/grpc/qgrpcstatus.cpp","src/grpc/qgrpcstatus.h"],[("QGrpcStatus","src/grpc/qgrpcstatus.cpp")])
p("P23","Client calls always end in a status and report every failure once",
 "A synchronous call without an attached channel, or with one whose call fails, returns that failure and signals it exactly once; with success it returns Ok and signals nothing. A response that cannot be decoded is reported with the status of its failure kind and never escapes as an exception.",
 ["inputs","fault_sequences"],"every channel outcome, every response body, channel attached or not",
 "Fault combinations are not provoked by the tests.",
 [CL,CLH],[("QAbstractGrpcClient::call",CL),("tryDeserialize/trySerialize templates",CLH)])
p("P24","A second subscription to the same stream shares the first one",
 "Opening a stream with the same method and argument as an active one returns the active stream with the new handler added and opens nothing; otherwise one new stream is opened and remembered, and it is forgotten exactly when it finishes. Every registered handler of a stream sees every message of it.",
 ["inputs","histories"],"every set of active streams, every method, argument and handler",
 "Histories of overlapping streams are unbounded.",
 [CL,"src/grpc/qgrpcstream.cpp","src/grpc/qgrpcstream.h"],[("QAbstractGrpcClient::stream",CL),("QGrpcStream","src/grpc/qgrpcstream.h")])
p("P25","Calls and streams over the native gRPC library are carried unchanged",
 "Over the native gRPC channel the payload is sent, byte for byte and for every length, to /service/method. A call has exactly one outcome: the server's response unchanged on success, otherwise the native status code and message unchanged and no payload. A stream delivers every message of the server once, in order and unchanged, and reports a failing status once. After an abort, or once a stream is finished or its client destroyed, nothing more is delivered.",
 ["inputs","histories"],"every payload, every way the library cuts it into slices, every number of messages, every native status, every moment of an abort",
 "Payloads, slices and message sequences are unbounded, and aborts can fall anywhere.",
 [NC],[("parseByteBuffer, parseQByteArray, QGrpcChannelCall, QGrpcChannelStream, QGrpcChannelPrivate::call, QGrpcChannelPrivate::stream",NC)])
p("P26","Qt value types survive the trip through their protobuf counterparts",
 "Converting a supported Qt value (URL, character, UUID, date, time, date-time, size, point, rectangle, polygon, colour, matrix, vector, transform, quaternion, image) to its message and back yields an equal value, for every value representable in the message's fields.",
 ["inputs"],"every value of each supported Qt type",
 "Value spaces are huge; tests convert one value per type.",
 [QT],[("convert overloads",QT)])
p("P27","Generated classes bind every field number to its own property",
 "For every message description that the generator accepts (that is, whose generated class compiles), the generated class lists each field exactly once, and the property index stored for a field number is the index under which that very field is declared as a property, with the field's own number and the C++ type that belongs to its protobuf type.",
 ["programs"],"every message description",
 "The set of schemas is unbounded; the tests generate from a fixed set.",
 ["src/generator/messagedefinitionprinter.cpp","src/generator/messagedeclarationprinter.cpp","src/generator/generatorcommon.cpp"],[("printFieldsOrdering, printProperties, produceSimpleTypeMap, produceMessageTypeMap","src/generator")])
p("P28","JSON serialization inverts itself for every message",
 "For every message, parsing the JSON produced for it gives an equal message, and every string is escaped so that the output is valid JSON.",
 ["inputs"],"every message value",
 "Strings and nesting are unbounded.",
 ["src/protobuf/qprotobufjsonserializer.cpp"],[("QProtobufJsonSerializer","src/protobuf/qprotobufjsonserializer.cpp")])
p("P29","A stream interrupted by an error is re-opened and never duplicated",
 "After a transport error an active stream that is still referenced is re-opened exactly once after the back-off period, with its original method and argument; a finished or cancelled stream is never re-opened, whatever the order in which error, finish, cancel and client destruction arrive.",
 ["schedules","histories","fault_sequences"],"every order of error, finish, cancel, timeout and destruction events",
 "The orders of asynchronous events are unbounded.",
 [CL,H2],[("error/finished connections",CL)])
p("P30","Generated message classes are values",
 "For every generated message class and every content: a default-constructed message has the default in every field; a message constructed from values has those values (and defaults in the rest); copying, moving, assigning and move-assigning give the target every field of the source, whatever the target held before, and a copied or assigned-from source is untouched; two messages are equal exactly when all their fields are equal (sub-messages and repeated messages by content, an unset sub-message counting as a default one); a setter, or the QML alias of an integer field, changes its own field only and notifies exactly when the value changes; an assignment that changes a field notifies it. Outside: NaN, the sign of zero, the content of a moved-from message.",
 ["inputs","histories","programs"],"every content of source and target, for message classes with every field kind",
 "Contents of two objects are unbounded; the tests copy and compare a few messages.",
 ["src/generator/messagedefinitionprinter.cpp","src/generator/messagedeclarationprinter.cpp","src/generator/templates.cpp"],[("printConstructors, printCopyFunctionality, printMoveSemantic, printComparisonOperators, setters and getters","src/generator/messagedefinitionprinter.cpp")])
p("P31","A date-time survives the trip through google.protobuf.Timestamp",
 "For every QDateTime, converting it to the generated google.protobuf.Timestamp and back gives the same instant; seconds are the whole seconds since the epoch, and a Timestamp of whole seconds converts to exactly that instant. The fraction is in nanoseconds.",
 ["inputs"],"every instant in milliseconds, every valid Timestamp",
 "The tests convert the current time.",
 ["src/generator/messagedefinitionprinter.cpp"],[("printConstructors (Timestamp)","src/generator/messagedefinitionprinter.cpp")])
p("P32","HTTP/2 requests carry credentials, gRPC headers and the SSL configuration",
 "Every request that QGrpcHttp2Channel makes (synchronous, asynchronous, stream and re-opened stream) carries, for each call credential the channel's credentials report at that moment (they are asked anew for every request), one header with the credential's name and its text in UTF-8; the content type application/grpc, te: trailers, HTTP/2 without upgrade, and the SSL configuration of the channel. Creating a channel for an https URL without an SSL configuration among the channel credentials throws std::invalid_argument, with one the channel uses exactly that configuration; any other channel is created; a URL without scheme is taken as http. Outside: empty credential names or values, and names that repeat each other or the gRPC headers.",
 ["inputs","histories","configurations"],"every number, name and value of credentials, every kind of request, every URL scheme and set of channel credentials",
 "The set of credentials is unbounded and may change between calls; the tests use none or one fixed user and password.",
 [H2,"src/grpc/qgrpccredentials.h","src/grpc/qgrpcuserpasswordcredentials.h","src/grpc/qgrpcsslcredentials.h"],[("QGrpcHttp2ChannelPrivate::post, constructor",H2)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
