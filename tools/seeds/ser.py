import sys; sys.path.insert(0, '/verif/native'); sys.path.insert(0, '/verif/engine')
import sernat as N
H = 'src/protobuf/qprotobufserializer_p.h'; C = 'src/protobuf/qprotobufserializer.cpp'; AP = 'src/protobuf/qabstractprotobufserializer_p.h'; AH = 'src/protobuf/qabstractprotobufserializer.h'
def ser(v, cls='All'): return {'op': 'ser', 'cls': cls, 'v': v}
def rt(v, cls='All'): return {'op': 'rt', 'cls': cls, 'v': v}
def deser(b, cls='All', **k): return dict({'op': 'deser', 'cls': cls, 'in': b.hex()}, **k)
F = {t: str(n) for n, t in N.A.items() if isinstance(t, str) and n < 1000}
L = {t[1]: str(n) for n, t in N.A.items() if isinstance(t, tuple) and t[0] == 'list'}
tag, varint = N.tag, N.varint
def hx(s): return s.encode().hex() if isinstance(s, str) else s.hex()
def ld(n, b): return tag(n, 2) + varint(len(b)) + b
SPECS = [
 dict(id='p01-two-byte-fast-path', prop='P01', needs='a varint field holding exactly 16384',
      breaks='the two-byte short cut also takes the first value that needs three bytes and emits it unterminated',
      edits=[(H, '''        V varint = value;
        QByteArray result;

        while (varint != 0) {
            //Put 7 bits to result buffer and mark as "not last" (0b10000000)
            result.append((varint & 0b01111111) | 0b10000000);
            //Divide values to chunks of 7 bits and move to next chunk
            varint >>= 7;
        }

        // Invalidate''', '''        V varint = value;
        QByteArray result;

        //Most of values are small, handle two-byte varints without loop
        if (varint > 0x7f && varint <= 0x4000) {
            result.append((varint & 0b01111111) | 0b10000000);
            result.append(varint >> 7);
            return result;
        }

        while (varint != 0) {
            //Put 7 bits to result buffer and mark as "not last" (0b10000000)
            result.append((varint & 0b01111111) | 0b10000000);
            //Divide values to chunks of 7 bits and move to next chunk
            varint >>= 7;
        }

        // Invalidate''')],
      cmds=[ser({F['uint32']: '16384', F['bool']: '1'}), ser({F['int64']: '16384'}), ser({F['sint32']: '8192'}), ser({F['uint32']: '16383'}), ser({F['uint64']: '16385'})]),
 dict(id='p02-zigzag-minimum', prop='P02', needs='a sint32 or sint64 field holding the minimum of its type',
      breaks='the magnitude of the most negative value overflows, so it decodes to zero',
      edits=[(H, 'V value = (unsignedValue >> 1) ^ (-1 * (unsignedValue & 1));', 'V value = (unsignedValue & 1) ? -static_cast<V>((unsignedValue + 1) >> 1) : static_cast<V>(unsignedValue >> 1);')],
      cmds=[rt({F['sint32']: str(v)}) for v in (-(1 << 31), 1-(1 << 31), 2**31-1, 5, -5)] + [rt({F['sint64']: str(v)}) for v in (-(1 << 63), -7)] + [rt({L['sint64']: ['0', str(-(1 << 63))]})]),
 dict(id='p03-skip-varint-raw', prop='P03', needs='an unknown multi-byte varint field followed by a value that is truncated at the end of the input',
      breaks='skipping moves the raw pointer without accounting for the bytes, so a later bounds check passes although the value does not fit and bytes behind the input are read',
      edits=[(C, '''    while ((*it) & 0x80) {
        ++it;
    }
    ++it;''', '''    QByteArray::const_iterator &raw = static_cast<QByteArray::const_iterator &>(it);
    while ((*raw) & 0x80) {
        ++raw;
    }
    ++it;''')],
      cmds=[deser(tag(600, 0) + varint(2**40) + tag(15, 2) + b'\x06ab'), deser(tag(600, 0) + varint(2**40) + ld(15, b'xyz')), deser(tag(600, 0) + b'\x05' + tag(15, 2) + b'\x06ab')]),
 dict(id='p04-group-types', prop='P04', needs='a record with a group wire type (3 or 4) and the number of a known field',
      breaks='group wire types are accepted, so the bytes that follow are decoded as if they were the payload of the field',
      edits=[(H, '''fieldIndex > 0 && (wireType == Varint
                                                             || wireType == Fixed64
                                                             || wireType == Fixed32
                                                             || wireType == LengthDelimited);''', '''fieldIndex > 0 && wireType >= Varint && wireType <= Fixed32;''')],
      cmds=[deser(tag(1, 3) + b'\x07'), deser(tag(1, 4) + b'\x07'), deser(tag(1, 0) + b'\x07'), deser(tag(1, 6) + b'\x07'), deser(ld(34, tag(1, 3) + b'\x01'))]),
 dict(id='p05-skip-nine-bytes', prop='P05', needs='an unknown field whose value is a ten-byte varint (any negative int32, int64 or enum)',
      breaks='at most nine bytes of an unknown varint are skipped and the tenth is taken for the next field header',
      edits=[(C, '''    while ((*it) & 0x80) {
        ++it;
    }
    ++it;''', '''    //Varint is never longer than sizeof(uint64) + 1
    for (size_t i = 0; i < sizeof(uint64) && ((*it) & 0x80); ++i) {
        ++it;
    }
    ++it;''')],
      cmds=[deser(tag(600, 0) + varint(2**64-3) + tag(1, 0) + b'\x07'), deser(tag(600, 0) + varint(2**63-3) + tag(1, 0) + b'\x07')]),
 dict(id='p05-skip-long-payload', prop='P05', needs='an unknown length-delimited field of 65536 bytes or more',
      breaks='the length to skip is cut to sixteen bits, so decoding resumes inside the payload',
      edits=[(C, '    uint32 length = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);\n    it += length;', '    auto length = QProtobufSerializerPrivate::deserializeVarintCommon<quint16>(it);\n    it += length;')],
      cmds=[deser(ld(600, b'\x08\x00' * 35000 + b'\0') + tag(1, 0) + b'\x07'), deser(ld(600, b'\x08\x09' * 3000) + tag(1, 0) + b'\x07')]),
 dict(id='p06-string-nul', prop='P06', needs='a string field that contains a NUL character',
      breaks='the encoded string ends at the first NUL character',
      edits=[(H, '    static QByteArray serializeBasic(const V &value, int &/*outFieldIndex*/) {\n        return serializeLengthDelimited(value.toUtf8());', '    static QByteArray serializeBasic(const V &value, int &/*outFieldIndex*/) {\n        return serializeLengthDelimited(value.toUtf8().constData());')],
      cmds=[ser({F['string']: hx(b'a\0b')}), ser({F['string']: hx('ä€')}), ser({'34': [['1', hx(b'q\0')]]})]),
 dict(id='p06-length-16bit', prop='P06', needs='a length-delimited value of 65536 bytes or more',
      breaks='the length prefix is computed in sixteen bits',
      edits=[(H, 'return serializeVarintCommon<uint32_t>(data.size()) + data;', 'return serializeVarintCommon(static_cast<uint16_t>(data.size())) + data;')],
      cmds=[rt({F['bytes']: '5a' * 70000}), rt({F['bytes']: '5a' * 60000})]),
 dict(id='p08-empty-bytes', prop='P08', needs='a repeated bytes field with an empty element',
      breaks='empty elements are dropped while decoding',
      edits=[(C, '    list.append(deserializeLengthDelimited(it));\n', '    const QByteArray element = deserializeLengthDelimited(it);\n    if (!element.isEmpty()) {\n        list.append(element);\n    }\n')],
      cmds=[rt({L['bytes']: ['61', '', '62']}), rt({L['bytes']: ['']}), rt({L['string']: ['61', '', '62']})]),
 dict(id='p11-last-byte', prop='P11', needs='input that ends with a single stray byte after the last complete record',
      breaks='a trailing byte that is no complete record is silently ignored instead of aborting decoding',
      edits=[(C, '    for (QProtobufSelfcheckIterator it(data); it != data.end();) {', '    //Smallest possible record takes 2 bytes\n    for (QProtobufSelfcheckIterator it(data); it.size() > 1;) {')],
      cmds=[deser(tag(1, 0) + b'\x07' + b'\x08'), deser(tag(1, 0) + b'\x07' + b'\x00'), deser(tag(1, 0) + b'\x07'), deser(b'\x07')]),
 dict(id='p12-stop-early', prop='P12', needs='a map entry that carries further (unknown or repeated) parts after its key and value',
      breaks='decoding of an entry stops once key and value are known; the rest of the entry is decoded as fields of the message',
      edits=[(C, '''    QProtobufSelfcheckIterator last = it + count;
    while (it != last) {''', '''    QProtobufSelfcheckIterator last = it + count;
    int seen = 0;
    while (it != last && seen != (1 | 2)) {'''), (C, '            handler.deserializer(it, key);\n', '            handler.deserializer(it, key);\n            seen |= 1;\n'),
             (C, '            //TODO: replace with some common function\n            int userType = value.userType();', '            seen |= 2;\n            //TODO: replace with some common function\n            int userType = value.userType();')],
      cmds=[deser(ld(34, tag(1, 0) + b'\x05' + ld(2, b'ab') + tag(3, 0) + b'\x07')), deser(ld(34, tag(1, 0) + b'\x05' + ld(2, b'ab') + ld(2, b'cd'))), deser(ld(34, tag(1, 0) + b'\x05' + ld(2, b'ab')))]),
 dict(id='p12-keep-first', prop='P12', needs='two entries with the same key in one message',
      breaks='an entry whose key is already present is dropped instead of replacing the previous value',
      edits=[(AP, '        out[key.value<K>()] = value.value<V>();', '        if (!out.contains(key.value<K>())) {\n            out.insert(key.value<K>(), value.value<V>());\n        }')],
      cmds=[deser(ld(34, tag(1, 0) + b'\x05' + ld(2, b'ab')) + ld(34, tag(1, 0) + b'\x05' + ld(2, b'cd'))), deser(ld(34, tag(1, 0) + b'\x05' + ld(2, b'ab')) + ld(34, tag(1, 0) + b'\x06' + ld(2, b'cd')))]),
 dict(id='p13-empty-object', prop='P13', needs='a repeated message field with an element all of whose fields have their default value',
      breaks='an element without content is not emitted, so the list shrinks',
      edits=[(C, '    return serializeObject(object, metaObject, metaProperty);', '''    QByteArray content = serializeMessage(object, metaObject);
    if (content.isEmpty()) {
        return content;
    }
    QByteArray result = QProtobufSerializerPrivate::encodeHeader(metaProperty.protoFieldIndex(), LengthDelimited);
    result.append(QProtobufSerializerPrivate::prependLengthDelimitedSize(content));
    return result;''')],
      cmds=[rt({'5': [{'1': '5'}, {}, {'2': '61'}]}, 'Sub'), rt({'5': [{}]}, 'Sub'), rt({'5': [{'1': '5'}]}, 'Sub')]),
 dict(id='p14-enum-32bit', prop='P14', needs='a negative enum value',
      breaks='negative enum values are emitted as five-byte varints of their 32-bit value instead of ten bytes',
      edits=[(C, '    QByteArray result = QProtobufSerializerPrivate::serializeBasic<int64>(value, fieldIndex);', '    QByteArray result = QProtobufSerializerPrivate::serializeBasic<int32>(static_cast<int32_t>(value._t), fieldIndex);')],
      cmds=[ser({'30': '-1'}), ser({'30': str(-2**31)}), ser({'30': '1'}), ser({'42': [['4', '-1']]})]),
 dict(id='p14-enum-list-replace', prop='P14', needs='a repeated enum field split over several packed blocks',
      breaks='each block replaces the elements decoded before',
      edits=[(AP, '    QList<T> enumList = previous.value<QList<T>>();', '    QList<T> enumList;\n    enumList.reserve(intList.size());')],
      cmds=[deser(ld(31, b'\x01\x00') + ld(31, b'\x01')), deser(ld(31, b'\x01\x00'))]),
]
