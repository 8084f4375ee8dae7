LF = ["MQTTSNPacket/src/MQTTSNPacket.c", "MQTTSNPacket/src/MQTTSNConnectClient.c", "MQTTSNPacket/src/MQTTSNConnectServer.c",
      "MQTTSNPacket/src/MQTTSNSerializePublish.c", "MQTTSNPacket/src/MQTTSNDeserializePublish.c", "MQTTSNPacket/src/MQTTSNSubscribeClient.c",
      "MQTTSNPacket/src/MQTTSNSubscribeServer.c", "MQTTSNPacket/src/MQTTSNUnsubscribeClient.c", "MQTTSNPacket/src/MQTTSNUnsubscribeServer.c",
      "MQTTSNPacket/src/MQTTSNSearchClient.c", "MQTTSNPacket/src/MQTTSNSearchServer.c"]
T1 = "test1 round-trips one handful of values per packet type through buffers of 100 bytes"

prop("C01", "Serializers never write outside the caller's buffer",
     "Whatever values and buffer length a caller passes to an MQTT-SN serializer, no byte is written outside the buffer of that length, "
     "and no byte is read outside the strings and payload the caller passed.",
     ["inputs"], "all parameter values (non-negative lengths that describe their data), every buffer length including 0 and negative",
     T1 + "; an overflow needs a particular combination of content length and buffer length", LF,
     [("size check before the first write", "every MQTTSNSerialize_* function"), ("field writers", "MQTTSNPacket.c: writeChar, writeInt, writeMQTTSNString, writeCString")],
     ["memory written through the buffer parameter"], AI + ": bounds obligations on every access", LIBNOTE)
prop("C02", "Serialized packets describe their own length exactly",
     "A serializer that succeeds returns exactly the number of bytes it wrote, the packet's length field carries that number in the one-byte form up to 255 and the "
     "three-byte form above, and it equals the length announced by the corresponding length function; a serializer fails only if the buffer is too "
     "short for the packet, and then writes nothing and returns a value that is not positive.",
     ["inputs"], "all parameter values whose packet fits the 16 bit length field, every buffer length",
     T1 + "; the boundary between the two length forms is never crossed", LF,
     [("length computation", "MQTTSNPacket_len, MQTTSNSerialize_*Length"), ("length field", "MQTTSNPacket_encode, MQTTSNPacket_decode")],
     ["return value and the bytes of the produced packet"], AI + ": relation between return value, write log and length field", LIBNOTE)
prop("C03", "Deserializers never read outside the received bytes",
     "Given any bytes and any number of received bytes, no deserializer or packet reader of the packet library reads a byte outside the received ones.",
     ["inputs"], "every buffer content and every received length including 0 and negative",
     T1 + ", always well-formed; truncated and inconsistent packets are never tried", LF,
     [("packet bounds", "MQTTSNPacket_decode and the length checks of every MQTTSNDeserialize_*"), ("field readers", "readChar, readInt, readMQTTSNString")],
     ["memory read through the buffer parameter"], AI + ": bounds obligations on every access", LIBNOTE)
prop("C04", "What was serialized is what is deserialized",
     "Applying a message's deserializer to the bytes its serializer produced succeeds and yields exactly the values that were serialized, strings and payload byte for byte.",
     ["inputs"], "all values in the domain of the message's fields, both length forms, all topic kinds, QoS -1 to 2",
     T1 + "; values at field boundaries, long packets and most topic kinds are not covered", LF,
     [("serializer/deserializer pairs", "MQTTSNSerialize_X and MQTTSNDeserialize_X")],
     ["output parameters of the deserializers"], AI + ": deserializer run abstractly on the symbolic bytes of the serializer", LIBNOTE)
prop("C05", "Message types are written, checked and named correctly",
     "Every serialized packet carries the message type code of its message, every deserializer reports success only for packets carrying its own type code, "
     "success is reported as 1 and failure never as a positive value, and the name given for a type code is that of the message.",
     ["inputs"], "all parameter values; all 256 type bytes for every deserializer",
     T1 + ", never with another message's packet", LF,
     [("type codes", "enum MQTTSN_msgTypes"), ("type checks", "every MQTTSNDeserialize_*"), ("name table", "MQTTSNPacket_name")],
     ["type byte, return values, MQTTSNPacket_name"], AI + ": feasibility of each type byte on success paths", LIBNOTE)
prop("C06", "Successful deserialization sets every output inside the packet",
     "When a deserializer reports success it has assigned every output its message defines, and every string or payload it returns lies completely inside the received packet and cannot be shadowed by stale caller data.",
     ["inputs"], "every buffer content and received length for which success is reported, every prior content of the outputs",
     T1 + " with zeroed outputs, so an output left alone is invisible", LF,
     [("output assignment", "every MQTTSNDeserialize_*"), ("string output", "readMQTTSNString")],
     ["output parameters"], AI + ": definite assignment and slice containment on success paths", LIBNOTE)
prop("C08", "A packet reader hands out only complete packets",
     "MQTTSNPacket_read and MQTTSNPacket_read_nb return the message type exactly if the received bytes are one packet: the length field, in either form, counts all of them, and a type follows it. Anything else - too short, truncated, with bytes behind the packet, "
     "a source that fails - gives MQTTSNPACKET_READ_ERROR. The source is asked once and for no more than the buffer holds.",
     ["inputs", "fault_sequences"], "every buffer content, buffer length and number of bytes the source delivers, failures included",
     T1 + "; none calls a reader", ["MQTTSNPacket/src/MQTTSNPacket.c"],
     [("readers", "MQTTSNPacket_read, MQTTSNPacket_read_nb"), ("length field", "MQTTSNPacket_decode")],
     ["return value, calls of the source"], AI, LIBNOTE)
prop("C07", "Packet fields have the layout of the MQTT-SN 1.2 specification",
     "The bytes after the message type are, field by field and bit by bit, those of the MQTT-SN 1.2 message format, both in what the serializers write and in how the deserializers read them.",
     ["inputs"], "all field values, both length forms, all topic kinds",
     "tests only check the library against itself; a layout changed on both sides still round-trips", LF,
     [("field order and flag bits", "MQTTSNSerialize_*, MQTTSNDeserialize_*, MQTTSNFlags")],
     ["packet bytes"], AI + " against a table of the specification's layouts", LIBNOTE)
