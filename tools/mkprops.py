#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe))))
FR='flatgeobuf/file_reader.go'; FW='flatgeobuf/file_writer.go'; ST='flatgeobuf/stateful.go'; FB='flatgeobuf/flatbuffers.go'
PR='flatgeobuf/prop_reader.go'; PW='flatgeobuf/prop_writer.go'; SP='flatgeobuf/spec.go'; SG='flatgeobuf/stringers.go'
PT='packedrtree/packedrtree.go'; BX='packedrtree/box.go'; NB='packedrtree/native_bigendian.go'; NL='packedrtree/native_littleendian.go'; HI='packedrtree/hilbert.go'
FL=['flatgeobuf/flat/%s.go'%x for x in ('Header','Feature','Geometry','Column','Crs','ColumnType','GeometryType')]

prop('C01','FileReader reads each section and feature from its own bytes, in order',
 'For every sequence of FileReader calls on a well-formed file, seekable or not, Header reads the magic number, header length and header from the start of the stream, Index decodes the bytes right after the header, and every feature returned by Data or DataRem is exactly the next unread length-prefixed record of the data section, the first being the one right after the header and index. The index occupies packedrtree.Size(features count, node size) bytes, or none when either header value is zero. After Rewind the reader is back right after the header, so that whatever was read or skipped before, the same calls see the same bytes again.',
 ['histories','inputs'],'every sequence of exported calls (Header, Index, IndexSearch, Data with any slice length, DataRem, Rewind, Close), every header feature count and node size, seekable and non-seekable streams',
 'The tests read two sample files in one or two fixed call orders; a wrong cursor after, say, Index, Rewind, Data is only visible for that history.',
 [FR],[('lazy seek/skip of the index section',FR+': Index, skipIndex'),('offset memo for Rewind',FR+': saveIndexOffset, saveDataOffset'),('feature framing',FR+': readFeature')],
 [('stream cursor','physical read position','underlying io.Reader'),('indexOffset/dataOffset','remembered section starts',FR)],['underlying io.Reader/io.Seeker calls','returned features'])
prop('C02','IndexSearch returns the feature stored at each matching index offset',
 'Each feature returned by FileReader.IndexSearch is the length-prefixed record found at (start of the data section + the offset recorded in the index for one match), there is exactly one returned feature per match, and they are in ascending offset order. This holds whether the index is searched in the stream, decoded from it or was decoded by an earlier call, and on seekable and non-seekable streams.',
 ['histories','inputs'],'every search box and match set, every index content, every earlier call history, seekable and non-seekable streams',
 'The tests search one file with a few boxes; matches whose order in the index differs from their order in the file, or a search after Index and Rewind, are not reached.',
 [FR,PT],[('sort matches by offset, then skip forward and read',FR+': IndexSearch'),('streaming search',PT+': Seek')],(),['returned features','underlying stream calls'])
prop('C03','Calls made in the wrong order are refused without side effects',
 'A FileReader or FileWriter call that is not allowed at the current point (before Header, Header twice, index after the index position, writing data before a required index or past the declared feature count, an index or feature list that disagrees with the header) returns a non-nil error without reading, writing or seeking the stream, and later allowed calls behave as if it had not been made. Searching a file that has no index returns ErrNoIndex and leaves the reader at the data. No sequence of calls makes a reader or writer panic, except for a nil argument.',
 ['histories'],'every sequence of exported calls on a FileReader and on a FileWriter, every header feature count and node size',
 'The tests try a handful of out-of-order pairs, mostly straight after construction.',
 [FR,FW,ST],[('state machine',ST+': toState'),('guards',FW+': canWriteIndex, canWriteData'),('index state error',FR+': indexStateErr')],
 [('state','position in the call protocol',ST)],['returned error','underlying stream calls'])
prop('C04','After a stream failure or Close every later call fails and does no I/O',
 'Once a FileReader call has failed because of the stream contents or a stream error, every later call except Close returns that same error (a call whose arguments are themselves refused may report that instead) and performs no I/O; the same holds for a FileWriter once a stream error may have left a partial write. After Close, every call returns ErrClosed and performs no I/O, and the underlying stream is closed at most once in its life, exactly once if it is an io.Closer and Close was called. Closing a FileWriter that was closed before writing all features declared in the header returns an error.',
 ['histories','fault_sequences'],'every sequence of exported calls with an I/O fault at any read, write, seek or close',
 'Tests inject no faults after the header and do not call methods after a failure.',
 [ST,FR,FW],[('sticky error',ST+': toErr, toState'),('close once',ST+': close'),('truncated file error',FW+': Close')],(),['returned error','underlying stream calls'])
prop('C05','No error of the underlying stream is swallowed',
 'Whenever a Read, Write, Seek or Close of the underlying stream fails during a call of this library (FileReader, FileWriter, PropReader, PropWriter, Magic, packedrtree Marshal, Unmarshal and Seek), that call returns a non-nil error, except that reaching the end of the stream exactly between two features or two properties is reported as a normal end. When a call returns a nil error, every read it made was filled completely and every write it made was accepted completely.',
 ['fault_sequences'],'a fault (including a short read or short write) at every stream operation of every exported call in every reachable state',
 'The tests hardly inject stream faults, and only at the first operation.',
 [FR,FW,PR,PW,SP,PT,NB],[('error checks after each stream call',FR+', '+FW+', '+PT)],(),['returned error'])
prop('C06','Truncation is never reported as a clean end of data',
 'FileReader.Data returns io.EOF only when the stream ended exactly at a feature boundary of a file with no declared feature count, or when the declared number of features has been delivered, and it never delivers more than the declared number; a stream that ends anywhere else yields an error that is not io.EOF. The other FileReader calls never return io.EOF, and ReadSchema returns success only if the data ended between two properties. A Data call with an empty slice does not end the file early.',
 ['inputs','fault_sequences'],'the stream ending at any byte offset, any declared feature count including 0 (unknown), any slice lengths',
 'Tests never truncate a file in the data section and rarely use an unknown feature count.',
 [FR,PR],[('end of data handling',FR+': Data, DataRem, readFeature, discard'),('value errors',PR+': ReadSchema')],(),['returned error'])
prop('C07','Write methods return the number of bytes the stream accepted',
 'For every FileWriter, PropWriter and PackedRTree write method, the returned byte count equals the sum of the byte counts that the underlying writer reported for the writes the call made, on success and on failure.',
 ['inputs','fault_sequences'],'every call of a write method, with a fault or short write at any underlying write',
 'Tests compare the count on a few successful calls only.',
 [FW,FB,PW,PT,NB],[('count accumulation',FW+': Header, IndexDataPtr; '+PW+': WriteBinary; '+NB)],(),['returned n'])
prop('C08','FileWriter writes the FlatGeobuf layout verbatim',
 'The bytes a FileWriter produces are, in order, the 8-byte magic number, the complete size-prefixed header table, the index if and only if the header declares one (feature count and node size both non-zero), and each feature as its complete size-prefixed table exactly once in call or slice order, with nothing in between. An index is accepted only if its number of refs and node size equal those of the header, and when the header declares a feature count no more than that many features are written. A table that is not a size-prefixed root table at the start of its buffer, or whose buffer is shorter than its size prefix, is refused, and a Header, Index or Data call that is allowed at this point with acceptable arguments is carried out.',
 ['histories','inputs'],'every sequence of FileWriter calls and every header and feature table',
 'The tests barely exercise FileWriter.',
 [FW,FB,SP],[('table framing',FB+': writeSizePrefixedTable, tableSize'),('state machine',FW+': Header, index, Data')],(),['bytes passed to the underlying writer'])
prop('C09','Index offsets written by IndexData are the real feature offsets',
 'For every feature list given to IndexData or IndexDataPtr, the index entry made for a feature carries, as its offset, the number of data-section bytes that the call writes before that feature, i.e. the sum of the complete written sizes (length prefix included) of the features before it in the list.',
 ['inputs'],'every list of features of any length and sizes',
 'No test writes an index over more than trivial data and searches it again.',
 [FW,FB],[('offset accumulation',FW+': IndexDataPtr'),('table size',FB+': tableSize')],(),['offsets in the index handed to packedrtree.New'])
prop('C10','Index boxes cover every coordinate, including nested parts',
 'The bounding box that IndexData records for a feature (and the bounds that FeatureString prints) is expanded by every (x, y) coordinate pair of the geometry itself and, at every level of nesting up to the documented depth limit, of all of its parts; geometry nested deeper than the limit is reported as an error rather than left out. The bounds used to sort the index include the box of every feature.',
 ['inputs'],'every geometry: any number of coordinates, any number and nesting of parts',
 'The tests use flat geometries of a few sample files.',
 [SG,FW],[('recursive bounds',SG+': geomBounds'),('feature bounds',FW+': featureBounds')],(),['Box of each index entry'])
prop('C11','Property values use the FlatGeobuf little-endian encoding both ways',
 'For every value, each PropWriter method emits exactly the little-endian bytes of its type (1, 2, 4 or 8 bytes, booleans as 0 or 1, strings and byte arrays as a 4-byte length followed by the bytes), and the PropReader method of the same type consumes exactly that many bytes and returns the value whose encoding they are. Lengths that do not fit the 32-bit prefix are refused.',
 ['inputs'],'every value of every property type',
 'Tests check a few values per type.',
 [PR,PW],[('byte shifts',PR+', '+PW)],(),['bytes passed to the underlying writer','returned values'])
prop('C12','ReadSchema decodes every column type with the right decoder or fails',
 'For each property read, ReadSchema uses the column whose index was read (refusing indexes outside the schema), decodes the value with the decoder of that column\'s type so that the dynamic Go type of Value is the one for that type (int8, uint8, bool, int16, uint16, int32, uint32, int64, uint64, float32, float64, string for String and DateTime, []byte for Json and Binary), and records the same index, column and type. A column type it does not know, and any error from a value decoder, makes it return an error. On success it returns all properties in stream order.',
 ['inputs'],'every schema and every property byte sequence',
 'Tests cover one schema and a few types.',
 [PR],[('type switch',PR+': ReadSchema')],(),['returned []PropValue'])
prop('C13','Corrupt FlatBuffers contents never panic out of the library',
 'No content of a header or feature table, however corrupt, makes FileReader, FileWriter, PropReader.ReadSchema, HeaderString or FeatureString panic or recurse without bound: every access to table contents happens where a panic is converted into a returned error.',
 ['inputs'],'every byte content of header and feature tables',
 'Corrupt offsets are unbounded in variety; tests use valid tables.',
 [FB,FR,FW,PR,SG],[('panic guard',FB+': safeFlatBuffersInteraction'),('depth limit',SG+': geomBounds')],(),['panics'])
prop('C14','Lengths, counts and pointers read from a stream are validated before use',
 'A header length, feature length, property length, feature count, node size, index offset or child node pointer taken from an untrusted stream never leads to integer wraparound, a negative allocation size, an out-of-range slice or array access, or a panic, in FileReader, PropReader or packedrtree Unmarshal, Seek and Search; the result is an error instead. A header length above the documented 32 MiB limit is refused before memory is allocated for it, and Data and DataRem never allocate memory in proportion to the declared feature count beyond a fixed bound, nor ReadSchema in proportion to the column count of the schema.',
 ['inputs'],'every value of every untrusted length, count and pointer field',
 'Boundary values such as 2^32-1 or 2^63 are not in the sample files.',
 [FR,PR,PT],[('length checks',FR+': Header, readFeature'),('count checks',FR+': Header, DataRem'),('size overflow',PT+': size'),('child check',PT+': checkChild')],(),['panics','allocation sizes'])
prop('C15','Index section: Size, Marshal, Unmarshal and Seek agree on its length',
 'For every feature count and node size, packedrtree.Size is 40 bytes per tree node (or an error if that overflows), Marshal writes exactly that many bytes (those of the nodes, in order) for every tree that New or Unmarshal returns, Unmarshal consumes exactly that many and fills every node from them, and a successful Seek leaves the cursor exactly that many bytes after where it started.',
 ['inputs'],'every (numRefs, nodeSize) pair and every start offset',
 'Tests check a table of small pairs.',
 [PT],[('size',PT+': size, levelify, noo'),('cursor restore',PT+': Seek')],(),['stream cursor','returned n'])
prop('C16','Tree search reports or descends into every intersecting node it visits',
 'Every search step looks at all children of the visited node (from its first child index up to node size many, bounded by the end of that tree level), reports each leaf whose box intersects the query with its own offset and its index among the leaves, descends into each inner node whose box intersects it, and does neither for any other node; it ends with success only when no descended node is left unvisited. The streaming search reads node k from the index start plus 40*k bytes.',
 ['inputs'],'every tree that New or Unmarshal returns, every serialized index, query box and visiting order',
 'Tests use small trees and boxes.',
 [PT],[('search loop',PT+': packedRTree.search'),('fetch',PT+': Seek')],(),['Results'])
prop('C17','Box expansion and intersection are exact',
 'For non-NaN coordinates, Expand and ExpandXY make each side of the receiver the minimum (or maximum) of itself and the argument and change nothing else, and two boxes are treated as intersecting exactly when they share at least one point (touching edges included). The empty box is neutral for expansion.',
 ['inputs'],'every relative order of the coordinates of two boxes',
 'Tests sample some arrangements; the 81 orderings per operation are not covered.',
 [BX],[('comparisons',BX+': Expand, ExpandXY, intersects')],(),['Box fields, intersects result'])
prop('C18','Trees and package tables are never written after construction',
 'No exported operation on a PackedRTree (Bounds, NumRefs, NodeSize, Search, Marshal, String) writes memory reachable from the tree or from package-level variables, so concurrent searches and marshals of one tree are free of data races, and no function of the library writes package-level variables after initialisation.',
 ['schedules','inputs'],'every concurrent use of one tree and of the package-level functions',
 'The race detector only sees the schedules run; the tests share no tree between goroutines.',
 [PT,NB,SP]+FL[5:],[('read-only traversal',PT+': search'),('separate buffer for byte swap',NB+': writeLittleEndianOctets')],(),['memory writes'])
prop('C19','Buffers are not shared behind the caller\'s back',
 'Every header, feature, byte array and string that FileReader and PropReader return lives in memory allocated by that call and never written again by the library, packedrtree.New keeps no reference to the caller\'s slice, and no write method modifies or retains the bytes, features, headers or trees it is given.',
 ['histories'],'every sequence of calls',
 'A reused buffer shows only if an old result is re-examined after later calls.',
 [FR,PR,PW,FW,PT],[('fresh allocation per table',FR+': Header, readFeature'),('copy of refs',PT+': New')],(),['aliasing of returned buffers'])
prop('C20','Generated table code matches the FlatGeobuf schema',
 'For each field of the Header, Column, Crs, Feature and Geometry tables, the reader, the vector length and element accessors, the mutator and the builder functions all use the slot, element size, type and default value given by the FlatGeobuf 3 schema.',
 ['inputs'],'every field of every table, all accessors',
 'Tests touch a minority of the fields, on files written by other code.',
 FL[:5],[('vtable slots',', '.join(FL[:5]))],(),['accessor results'])
prop('C21','Enum names and values are exact inverses',
 'ColumnType and GeometryType constants have the values of the FlatGeobuf 3 schema, the name and value tables are inverse to each other and contain every constant, and String gives the table name for each declared value and a distinct fallback for others.',
 ['inputs'],'all enum values',
 'No test enumerates them.',
 FL[5:],[('tables',', '.join(FL[5:]))],(),['String(), EnumNames, EnumValues'])
prop('C22','Byte order is handled correctly on every Go architecture',
 'On every architecture the Go toolchain supports, the packages compile with exactly one byte-order implementation, the one for that architecture\'s byte order; on little-endian ones index bytes pass unchanged, and on big-endian ones each 8-byte word is reversed on reading and on writing, for every length that is a multiple of 8, without modifying the tree being written.',
 ['configurations','inputs'],'every GOARCH, every index length',
 'Tests run on amd64 only.',
 [NB,NL],[('build constraints',NB+', '+NL),('octet reversal',NB)],(),['build', 'index bytes'])
prop('C23','Magic number gate',
 'Magic consumes exactly the first 8 bytes and succeeds if and only if bytes 1-3 and 5-7 are "fgb", returning byte 4 as major and byte 8 as patch version; FileReader.Header refuses any major version outside the supported range before reading further, and the magic number FileWriter writes is one that FileReader accepts.',
 ['inputs'],'all 8-byte prefixes',
 'Tests try a few prefixes.',
 [SP,FR,FW],[('byte comparison',SP+': Magic'),('version check',FR+': Header')],(),['returned SpecVersion, error'])
prop('C24','HilbertSort permutes its input into descending Hilbert order',
 'For every list of refs and bounds, HilbertSort leaves the same refs in the list, in descending order of the Hilbert curve position of their box centres.',
 ['inputs'],'every list of refs and bounds',
 'Tests check fixed tables of points.',
 [HI],[('sort and curve arithmetic',HI)],(),['order of refs'])
prop('C25','A written file reads back equal to what was written',
 'For every header and feature list accepted by FileWriter, reading the produced bytes with FileReader yields an equal header, index and features, and an index search with any box finds exactly the features whose bounds intersect it.',
 ['inputs','histories'],'every header, feature list and query box',
 'Round trips of a few samples only.',
 [FR,FW,PT],[('reader and writer as a whole',FR+', '+FW)],(),['features read back'])
prop('C26','Streaming search goes through the index in ascending order and reads only what it visits',
 'In packedrtree.Seek, every group of nodes that is put aside for later lies after the nodes of the group being looked at, the groups put aside are kept in a heap ordered by their position (so the next group taken is the first of them), and every read of the index is of the next bytes of the group being visited: no byte outside the visited groups is read and none is read twice during one visit.',
 ['inputs'],'every index content (also corrupt), tree size, node size and query box',
 'Tests do not observe which bytes are read, and use small trees.',
 [PT],[('min-heap of pending nodes',PT+': heapPush, heapPop, ticketBag'),('fetch',PT+': Seek')],(),['stream reads'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
