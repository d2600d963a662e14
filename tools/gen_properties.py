#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the list stays reviewable)."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ALLF=["mqttp/packet.go","mqttp/header.go","mqttp/connect.go","mqttp/connack.go","mqttp/publish.go","mqttp/puback.go","mqttp/subscribe.go","mqttp/suback.go","mqttp/unsubscribe.go","mqttp/unsuback.go","mqttp/pingreq.go","mqttp/pingresp.go","mqttp/disconnect.go","mqttp/auth.go","mqttp/property.go","mqttp/routines.go"]
p("C01","Decode is total on arbitrary bytes and never alters its input",
  "For every protocol version and every byte sequence, mqttp.Decode returns without panicking and without modifying the buffer it was given. It returns either a packet with a nil error or a nil packet with a non-nil error, never both and never neither.",
  ["inputs"],"all byte buffers of any length, every protocol version byte","Malformed packets are an unbounded space; each test pins one buffer, while the decoder indexes attacker-controlled lengths in every packet type and only a proof over all buffers shows none escapes the recover or writes through an aliasing slice.",
  ALLF,[("Decode with deferred recover","mqttp/packet.go"),("header.decode and the per-packet decodeMessage functions","mqttp/header.go")],observe="return values of Decode and the buffer passed in")
p("C02","Decode honours MQTT framing: exact consumption, size hint for short input",
  "If Decode succeeds, it consumed exactly the whole buffer: the reported total equals the buffer length and equals one plus the width of the remaining-length field plus the remaining length. If the fixed header is complete and legal for the version but the buffer is shorter than the announced frame, Decode returns ErrInsufficientDataSize together with the exact full frame size. A remaining-length field longer than four bytes is never accepted, and the remaining length is the little-endian base-128 value of those bytes.",
  ["inputs"],"all byte buffers, all protocol versions","Framing errors show only for particular length/offset combinations (multi-byte remaining length, payload ends exactly at the frame border); tests sample a few of 2^28 lengths.",
  ALLF,[("header.decode frame checks","mqttp/header.go"),("uvarint","mqttp/header.go")],observe="total and err returned by Decode")
p("C03","Size is exact: Encode writes exactly Size bytes or reports an error",
  "For every packet state reachable through the API, when Encode succeeds it returns exactly Size(), it has determined every one of those bytes (the result does not depend on what the buffer held before) and it has left every byte after them untouched. When the buffer is shorter than Size(), Encode returns Size() with ErrInsufficientBufferSize and writes nothing. A packet whose remaining length would exceed 268435455 is refused with ErrInvalidLength. The package function Encode allocates exactly Size() bytes and returns them filled, or the error.",
  ["inputs"],"all packet types, versions, field contents and lengths, property sets, buffer sizes and prior buffer contents","Tests encode into zeroed buffers of the right size; errors in size accounting appear at varint boundaries (128, 16384), with particular property combinations or with recycled buffers.",
  ALLF,[("header.Size / header.Encode","mqttp/header.go"),("per-packet size and encodeMessage","mqttp/*.go"),("property.FullLen and property.encode","mqttp/property.go")],observe="bytes of the caller's buffer and return values of Size/Encode")
p("C04","Encode then Decode returns the same packet",
  "For every packet of every type that is legal for its protocol version (topics, identifiers, codes, texts, properties and list lengths MQTT allows there), decoding the bytes produced by Encode with the same version yields a packet of the same type in which every field (flags, identifiers, topics and options in order, payload, credentials, will, reason codes, properties with their values) equals the original.",
  ["inputs"],"all legal packets of all 15 types and 3 versions, with field contents of any length","A lossy field or an encoder/decoder disagreement shows only for particular field combinations; the space of legal packets is infinite and tests fix one byte string per type.",
  ALLF,[("encodeMessage/decodeMessage pairs","mqttp/*.go"),("property.encode/property.decode","mqttp/property.go")],observe="getters of the decoded packet")
p("C05","Fixed header: type, flags and minimal remaining length on the wire",
  "The first byte Encode writes is the packet type in the high nibble and the flags required for that type in the low nibble (PUBLISH: DUP, QoS, RETAIN), followed by the remaining length in its shortest variable-byte form. Decode accepts only the flag nibble prescribed for the type; for PUBLISH it accepts no QoS 3; type 0, and type 15 below version 5, are rejected; PINGREQ, PINGRESP and, below version 5, DISCONNECT are accepted only without a body.",
  ["inputs"],"all 256 first bytes, all remaining lengths 0..268435455, all versions","The shortest-form and flag rules must hold for all 2^28 lengths and all 256 first bytes in each version, tests use a handful.",
  ["mqttp/header.go","mqttp/packetType.go","mqttp/packet.go"],[("header.Encode, header.setRemainingLength, uvarintCalc","mqttp/header.go"),("typeDefaultFlags","mqttp/packetType.go"),("header.decode reserved-flag check","mqttp/header.go")],observe="first bytes of the encoded packet; error of Decode")
p("C06","Length-prefixed fields are read and written exactly",
  "WriteLPBytes(buf,b) writes the two-byte big-endian length of b followed by b and nothing else, returns 2+len(b), refuses b longer than 65535 with ErrInvalidLPStringSize and a short buffer with the needed size and ErrInsufficientBufferSize, writing nothing in either case. ReadLPBytes returns exactly the announced bytes and 2 plus their count, or ErrInsufficientDataSize when the buffer ends before the field does, and never modifies the buffer.",
  ["inputs"],"all buffers and all field contents/lengths 0..65535 and beyond","Boundaries at 0, 65535, 65536 and at the end of the buffer interact; every string and binary field of the protocol goes through these two functions.",
  ["mqttp/routines.go"],[("ReadLPBytes, WriteLPBytes","mqttp/routines.go")],observe="return values and buffer contents")
p("C07","Property registry agrees with the MQTT 5 property table",
  "For every property identifier and packet type, PropertyID.IsValid, IsValidPacketType and DupAllowed answer exactly what MQTT 5.0 table 2-4 says (will properties counted under PUBLISH; duplicates only for User Property anywhere and Subscription Identifier in PUBLISH), and the value type under which a property is stored is the wire type given by that table. Every other identifier is invalid for every packet type.",
  ["inputs"],"all 2^32 property identifiers, all packet types","The tables have 27x16 entries plus 2^32 absent keys; an entry that is missing, extra or has the wrong type affects only packets that use it.",
  ["mqttp/property.go"],[("propertyAllowedMessageTypes, propertyTypeMap and the codec tables keyed by type","mqttp/property.go")],observe="PropertyID methods, PropertyToType.Type of stored values")
p("C08","PropertySet is all-or-nothing and PropertyGet returns what was set",
  "On a version 5 packet PropertySet succeeds exactly when the property is allowed for the packet type and the Go value has that property's wire type (a slice of values only where the property may repeat); afterwards PropertyGet returns that value through the matching accessor and only through it, and all other properties are unchanged. A PropertySet that returns an error leaves the packet's properties unchanged. On packets of other versions PropertySet and PropertyForEach return ErrNotSupported and PropertyGet returns nil.",
  ["inputs"],"all packet types and versions, identifiers, dynamic value types and values, any prior property set","The product of 27 properties, 15 packet types and arbitrary dynamic types of the value cannot be enumerated by hand-written tests, and partial failure is visible only in the state left behind.",
  ["mqttp/property.go","mqttp/header.go"],[("property.Set, property.Get, propertyToType accessors","mqttp/property.go"),("header.PropertySet/PropertyGet/PropertyForEach/PropertiesDiscard","mqttp/header.go")],state=[{"name":"property set","where":"header.properties"}] if False else None,observe="PropertyGet/PropertyForEach results")
p("C09","The cached property length always equals the encoded property length",
  "After any sequence of PropertySet, PropertiesDiscard, SetVersion and successful property decoding, the recorded property length equals the number of bytes the current properties occupy on the wire. In particular setting a property twice counts only the new value, a failed set counts nothing and discarding counts zero.",
  ["histories","inputs"],"every finite history of Set/Discard/SetVersion/decode on a packet","The counter is maintained incrementally, so it drifts only under particular histories (overwrite with a different length, failure in the middle, repeated properties on the wire); a drifted counter corrupts the next encoded packet.",
  ["mqttp/property.go","mqttp/header.go"],[("property.len maintained by Set/decode/reset","mqttp/property.go"),("calcLen* functions","mqttp/property.go")],observe="Size()/Encode of the packet after the history")
p("C10","Property sections are validated and consumed exactly on decode",
  "Decoding a version 5 property section accepts it only if its length field is a legal variable byte integer (at most four bytes, shortest form), the properties fill exactly that many bytes, each identifier is allowed for the packet type, single-valued properties occur once, and string values are valid UTF-8; it then consumes exactly the section and exposes exactly the values on the wire, User Properties in order. Anything else is rejected with a Malformed Packet or Protocol Error code.",
  ["inputs"],"all byte sequences as property sections, all packet types","The section is a nested length-delimited list of arbitrary length; overruns between the outer length and the inner fields appear only for particular byte combinations.",
  ["mqttp/property.go"],[("property.decode and decodeByte/Short/Int/VarInt/String/StringPair/Binary","mqttp/property.go")],observe="PropertyGet on the decoded packet, Decode error")
p("C11","Reason codes: validity per packet type, setters and decoders agree",
  "IsValidForType accepts exactly the reason codes MQTT assigns to the packet type (CONNACK also the 3.1.1 return codes), IsValid and IsValidV3/IsValidV5 agree with the code tables, and PacketTypeDir reports an issuer with a nil error exactly for the codes valid for the type, and for PUBACK to PUBCOMP, DISCONNECT, AUTH and the version 5 codes of CONNACK the sender MQTT names for the code. Setters that return an error and the decoders of CONNACK, PUBACK/PUBREC/PUBREL/PUBCOMP, DISCONNECT and AUTH accept exactly the codes valid for the type, store an accepted code and leave the stored code unchanged when refusing.",
  ["inputs"],"all 256 codes, all packet types, versions","Tables of 256x16 entries and several consumers; tests probe a few codes.",
  ["mqttp/reasonCodes.go","mqttp/connack.go","mqttp/puback.go","mqttp/disconnect.go","mqttp/auth.go"],[("packetTypeCodeMap, codeDescMap and their accessors","mqttp/reasonCodes.go"),("SetReturnCode, SetReasonCode, decodeMessage","mqttp/connack.go, mqttp/auth.go")],observe="setter errors and getters, Decode error")
p("C12","PUBLISH flags are independent and illegal combinations are refused",
  "SetDup, SetRetain, SetQoS and Set change only the flag they name: afterwards Dup, Retain and QoS return the last value set for each, whatever the order of calls. An invalid QoS (or topic) is refused and leaves the packet unchanged. A QoS 0 packet with DUP set is refused by Encode with ErrDupViolation and rejected by Decode.",
  ["histories","inputs"],"every history of flag setters with all argument values","Bit fields shared by several setters break only for particular orders and previous values.",
  ["mqttp/publish.go"],[("SetDup, SetRetain, SetQoS, Set, Dup, Retain, QoS","mqttp/publish.go"),("encodeMessage/decodeMessage DUP check","mqttp/publish.go")],observe="getters, encoded first byte")
p("C13","Packet identifiers are stored, required and carried exactly",
  "SetPacketID(v) makes ID() return v; a packet without identifier reports ErrNotSet. Packets that require an identifier (PUBLISH with QoS 1/2, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK) refuse to encode without one, carry it big-endian at its prescribed place, and are never accepted by Decode with fewer than two identifier bytes; a QoS 0 PUBLISH carries none.",
  ["inputs"],"all 65536 identifiers, all packet types and versions, all truncations","Truncated or byte-swapped identifiers show only for particular values and frame lengths.",
  ["mqttp/header.go","mqttp/publish.go","mqttp/puback.go","mqttp/subscribe.go","mqttp/suback.go","mqttp/unsubscribe.go","mqttp/unsuback.go"],[("setPacketID, decodePacketID, encodePacketID, ID","mqttp/header.go")],observe="ID(), encoded bytes, Decode error")
p("C14","CONNECT setters keep the connect flags consistent with the fields",
  "After any sequence of SetClean, SetWill, ResetWill, SetCredentials, SetClientID and SetKeepAlive, the connect-flags byte describes exactly the fields that are present (clean session, will with its QoS and retain, user name, password), its reserved bit is zero, and Credentials and Will return what the last successful setter stored. Below version 5 a password without a user name is refused; a refused will, user name or client identifier leaves no flag set for a field that is absent.",
  ["histories","inputs"],"every history of setters with all arguments, all versions","Flags and fields live apart, so they diverge only under particular call orders (set, clear, re-set, failed set).",
  ["mqttp/connect.go"],[("SetWill/ResetWill/SetCredentials/SetClean and connectFlags","mqttp/connect.go")],observe="getters and the encoded connect-flags byte")
p("C15","CONNECT decode enforces the connection rules of the announced version",
  "Decode of a CONNECT succeeds only if protocol name and level match a supported version, the reserved flag is zero, the will QoS is at most 2 and will QoS/retain are zero without a will, a password below version 5 comes with a user name, an empty client identifier below version 5 comes with clean session, and client identifier and user name are well-formed UTF-8 from the accepted character sets. Every accepted packet exposes exactly the fields of the wire, and for each violation of the connect flags the packet's decoder reports the version-specific reject code (which Decode replaces by Malformed Packet when bytes of the packet remain behind the violating field).",
  ["inputs"],"all CONNECT byte sequences","Eight interacting flag bits, three versions and five optional variable-length fields; tests cover a few vectors.",
  ["mqttp/connect.go"],[("Connect.decodeMessage","mqttp/connect.go"),("SupportedVersions","mqttp/types.go")],observe="Decode result and getters")
p("C16","Topic filters: only grammatical filters, exact decomposition",
  "NewTopic and NewSubscribeTopic accept a byte string exactly if it is non-empty UTF-8 without control characters, '+' and '#' stand alone in a level and '#' only in the last one, a filter starting with '$' has a '/' after its first level, and a $share filter has a wildcard-free share name and a non-empty remaining filter (and, for NewSubscribeTopic, the QoS in the options is at most 2). Accepted topics decompose exactly: Full returns the input, and for shared filters the prefix, share name and filter joined with '/' give back the input.",
  ["inputs"],"all byte strings, all option bytes","The grammar is an infinite language expressed as regular expressions over decoded runes; tests sample a few strings.",
  ["mqttp/types.go"],[("NewTopic, NewSubscribeTopic, TopicFilterRegexp, SharedTopicRegexp, BasicUTFRegexp","mqttp/types.go")],observe="errors and accessors of Topic")
p("C17","PUBLISH topics never contain wildcards or ill-formed text",
  "ValidTopic is true exactly for UTF-8 strings without control characters and without '+' or '#'. No PUBLISH whose topic is not valid can be produced by Set or SetTopic, encoded by Encode or accepted by Decode; below version 5 Decode and SetTopic also refuse an empty topic, and in version 5 Decode accepts an empty topic only with a non-zero Topic Alias.",
  ["inputs"],"all strings and byte buffers, all versions","The set of invalid topics is infinite and the check is repeated at four entry points.",
  ["mqttp/packet.go","mqttp/publish.go","mqttp/types.go"],[("ValidTopic, IsValidUTF","mqttp/packet.go, mqttp/types.go"),("Set/SetTopic/encodeMessage/decodeMessage","mqttp/publish.go")],observe="errors, Topic()")
p("C18","Subscription options decode to the right fields, reserved bits rejected",
  "For every options byte QoS, NL, RAP and RetainHandling return bits 0-1, 2, 3 and 4-5, and Raw the byte. Decode of a SUBSCRIBE accepts an options byte only if the QoS is at most 2, the reserved bits of the version (two high bits in version 5, six below) are zero and, in version 5, Retain Handling is not 3; each subscription keeps exactly its own options. ForEachTopic of SUBSCRIBE and UNSUBSCRIBE visits the topics in order and stops at the first error, which it returns.",
  ["inputs"],"all 256 option bytes, any number of topics","Bit extraction and reserved masks must be right for all bytes at any position in a list of any length.",
  ["mqttp/packet.go","mqttp/subscribe.go"],[("SubscriptionOptions methods","mqttp/packet.go"),("Subscribe.decodeMessage reserved-bit check","mqttp/subscribe.go")],observe="methods, Decode error, Topic.Ops")
p("C19","SUBACK and UNSUBACK code lists are validated and kept in order",
  "AddReturnCodes appends the given codes in order and returns nil exactly if every code is legal for the packet's version (version 5: the codes of that packet type; below: 0, 1, 2 and 0x80); after an error no illegal code has been stored. Decode accepts exactly the packets whose codes are all legal for the version and exposes them in wire order, and Encode writes them in order after the header (UNSUBACK: version 5 only).",
  ["inputs"],"code lists of any length, all 256 codes, all versions","Lists are unbounded and legality depends on version and packet type for each element.",
  ["mqttp/suback.go","mqttp/unsuback.go"],[("AddReturnCodes, decodeMessage, encodeMessage","mqttp/suback.go, mqttp/unsuback.go")],observe="ReturnCodes(), Decode error, encoded bytes")
p("C20","Publish.Clone copies the message and exactly the forwardable properties",
  "Clone yields a new PUBLISH of the same version with equal topic, payload, QoS, retain and expiry, with DUP cleared and without packet identifier or publish id. If source and target are version 5, Payload Format, Response Topic, Correlation Data, User Property and Content Type are carried over with equal values when present and no other property is; otherwise no property is carried, and the original is left unchanged.",
  ["inputs"],"all source packets and property sets, all target versions","The 2^n subsets of properties and arbitrary contents cannot be enumerated; leaking a hop-by-hop property such as Topic Alias breaks the receiver only in some combinations.",
  ["mqttp/publish.go"],[("Publish.Clone","mqttp/publish.go")],observe="getters of the clone and the original")
p("C21","Traffic counters: Diff reports exactly the increase since the last Diff",
  "Counter.Diff, FlowCounter.Diff and LoadStore return the source value minus the previous snapshot (modulo 2^64) for each component, update the snapshot to the source value and leave the source unchanged, so consecutive differences add up to the total. SentAddU64 and RecvAddU64 change only their own direction and return the new value.",
  ["inputs","histories"],"all counter values including wrap-around, all histories of adds and diffs","No existing test touches the metrics; wrap-around and crossed components need particular values.",
  ["vlmonitoring/vlmetrics.go"],[("LoadStore, Diff, AddU64","vlmonitoring/vlmetrics.go")],observe="return values and snapshot")
p("C22","Max keeps the true high-water mark under concurrent updates",
  "Under any interleaving of concurrent AddU64 and SubU64 calls no update of the current value is lost, the recorded maximum never decreases, and whenever an AddU64 call has returned the recorded maximum is at least the value that call produced. Load returns the current value and the recorded maximum.",
  ["schedules"],"any number of goroutines, any interleaving of their atomic steps","A lost update needs one particular interleaving between the load and the store of the maximum, which a test run practically never hits.",
  ["vlmonitoring/vlmetrics.go"],[("Max.AddU64, Max.SubU64, Max.Load","vlmonitoring/vlmetrics.go")],observe="Max.Load() after the calls")
p("C23","NormalizeConfig keeps every entry or fails",
  "NormalizeConfig returns a map[string]interface{} argument itself, converts a map[interface{}]interface{} whose keys are all strings into a map with exactly the same keys and values, and for a non-string key or any other argument returns a nil map and ErrInvalidConfigType. It never modifies its argument.",
  ["inputs"],"all configuration values, maps of any size and any iteration order","Map size and iteration order are unbounded; a dropped entry or an early exit shows only for some orders.",
  ["vltypes/config.go"],[("NormalizeConfig","vltypes/config.go")],observe="returned map and error")
p("C24","Packet factory and type metadata agree with MQTT",
  "For every version byte and type byte, New returns a packet of exactly that type, version and default flags with no identifier and no properties, or ErrInvalidMessageType exactly for types outside 1..15 and for AUTH below version 5; every exported constructor yields the same packet (NewAuth leaves the version check to New). Type.Valid, Name, Desc and DefaultFlags answer according to the MQTT packet table for every byte without panicking.",
  ["inputs"],"all 256 type bytes and all 256 version bytes","Sixteen near-identical constructors and three parallel tables; a swapped entry affects one type only.",
  ["mqttp/packet.go","mqttp/packetType.go"],[("newMessage, New* constructors","mqttp/packet.go"),("typeName, typeDescription, typeDefaultFlags, Type.Valid","mqttp/packetType.go")],observe="Type(), Version(), Flags(), ID()")
p("C25","Message expiry: Expired reports the remaining time and never resurrects",
  "A PUBLISH without expiry is never expired. With an expiry, Expired returns that instant, reports expired exactly when less than one whole second remains, and otherwise the number of whole seconds remaining (at most the largest uint32); once expired it stays expired as time passes. SetExpireAt is the only way to change it.",
  ["inputs"],"all instants and all clock readings","The result depends on the clock; tests cannot place the clock at the interesting boundaries.",
  ["mqttp/publish.go"],[("Publish.Expired, SetExpireAt","mqttp/publish.go")],observe="return values of Expired")
p("C26","A rejected version 5 packet is reported with a code the peer may be sent",
  "Whenever Decode refuses a version 5 packet with a reason code, that code is a version 5 failure code (0x80 or above) which DISCONNECT, or for a CONNECT announcing version 5 also CONNACK, may carry; a return code of the older versions is never reported for a version 5 packet.",
  ["inputs"],"all byte sequences of every packet type","Each decoder picks its reject code at a dozen places, some shared with the older versions; a code that is illegal in version 5 shows only for one particular malformed packet.",
  ["mqttp/header.go","mqttp/connect.go","mqttp/publish.go","mqttp/subscribe.go"],[("header.decode","mqttp/header.go"),("decodeMessage of every packet type","mqttp")],observe="error returned by Decode")
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
