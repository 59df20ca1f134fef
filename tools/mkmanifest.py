#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
AI='abstract interpretation of the SSA form: '
claimed={
'C01':(AI+'most-general-client fixpoint over FileReader, once for a seekable and once for a non-seekable stream, against an automaton of section starts and consumed bytes',
  'Every call sequence, every stream content and fault; the feature at an arbitrary position k is tied to its stream position. FlatBuffers accessors are modelled (C20), packedrtree is a contract (C15, C16).'),
'C02':(AI+'most-general-client fixpoint over FileReader; the feature at an arbitrary position k of the result is tied to match k, and the sort is checked through its Less and Swap',
  'Every call history and every list of matches; that the index search finds the right matches is C16.'),
'C03':(AI+'most-general-client fixpoint over FileReader and FileWriter against a protocol automaton (typestate of all call sequences)',
  'Every call sequence, argument and stream fault.'),
'C04':(AI+'most-general-client fixpoint over FileReader and FileWriter with a ghost for the remembered failure and for closing',
  'Every call sequence with a fault at any stream operation.'),
'C05':(AI+'error-flow: every path on which a stream operation fails or is short must return a non-nil error, in every state the most general client reaches',
  'Every stream operation of FileReader, FileWriter, PropReader, PropWriter, ReadSchema and Magic; packedrtree as a contract.'),
'C06':(AI+'most-general-client fixpoint over FileReader: each return of io.EOF must be justified by the automaton',
  'Every stream content, cut at any byte, every declared count, every history.'),
'C07':(AI+'most-general-client fixpoint over FileWriter (and a single call for the other writers) with the returned count compared with the sum of the accepted counts',
  'Every call sequence of FileWriter, every PropWriter call; the underlying writer may accept any number of bytes and fail at any write.'),
'C08':(AI+'most-general-client fixpoint over FileWriter against a layout automaton; every byte written is traced to the magic number, the header or a feature table',
  'Every call sequence, header value and feature list; FlatBuffers accessors are modelled (C20 checks those), Marshal is a contract that C15 checks.'),
'C09':(AI+'loop fixpoint with a recurrence for the offsets: ref k carries the sum of the sizes before it, for an arbitrary k',
  'Every feature list; HilbertSort is a contract (keeps the refs).'),
'C10':(AI+'induction over the recursion (recursive calls taken by the contract being proved) and loop fixpoints with an arbitrary element, for the geometry functions and for IndexData',
  'Every geometry and every feature list; that Expand covers its argument is C17. Order of visiting must be ascending.'),
'C11':(AI+'symbolic byte provenance of every value read and written, compared with the FlatGeobuf encoding table',
  'Decided for every value of every property type: the byte terms passed to the writer, or the term returned for the bytes read, are compared with the encoding. Known finding: ReadInt.'),
'C12':(AI+'loop fixpoint of ReadSchema with typestate on every produced element',
  'Decided for every schema and byte sequence; FlatBuffers accessors of Column are modelled (C20 checks those).'),
'C13':(AI+'every FlatBuffers access may panic; a panic that can leave an exported function is reported, in every state of the most general clients; call-graph recursion check with a bounded depth counter',
  'Every table content: an access is modelled as able to panic in any state. Schema implementations of the caller are assumed to be the flat tables.'),
'C14':(AI+'range, wraparound and allocation obligations at every index, slice, make, conversion and addition in every state of the most general client',
  'FileReader, PropReader, ReadSchema and Magic on arbitrary stream contents; streams below 2^62 bytes.'),
'C15':(AI+'the number of nodes is a symbolic sum over the levels, defined by the recurrence of the format, which loop fixpoints rediscover in the code; Size, Unmarshal, New, Marshal and Seek are compared with it',
  'Every number of refs, node size and start offset, every stream content and fault. 64-bit int; the heights and sums are symbolic, not bounded. That New stays within the nodes while it fills them is not decided.'),
'C16':(AI+'typestate of the search over an abstract list of pending nodes (invariant: each entry is a node with its level), with ghosts for the next child due and for a child found to intersect; exact case split for the box test',
  'Every tree New or Unmarshal returns, every serialized index, every query. That the boxes of inner nodes cover their children is a matter of the tree content and not decided. container/heap is taken by its documentation.'),
'C17':(AI+'case split over every weak ordering of the coordinates',
  'Coordinates are touched only through comparisons, so the finitely many orderings are exhaustive (NaN excluded). The quick tier takes the axes one at a time for expansion.'),
'C18':('interprocedural effect and escape analysis of the SSA form (who may write or keep which memory), with the function values a tree can hold resolved from its constructors; little- and big-endian',
  'Every function, every path, no bound; the memory of one parameter below its first level is one region.'),
'C19':('interprocedural effect and escape analysis of the SSA form, and '+AI+'buffer identity of each delivered table under the most general client of FileReader',
  'Every exported method of FileReader, FileWriter, PropReader and PropWriter and the tree constructors; streams are assumed not to keep or modify what they are given.'),
'C20':(AI+'each table access as a term over a model of the FlatBuffers runtime, compared with the embedded FlatGeobuf 3 schema',
  'Decided for every field: accessor, vector length and element accessors, mutator, builder functions, and the root functions of each table.'),
'C21':(AI+'constant map contents of the package initialiser and String on each value, compared with the schema enums',
  'Decided for every enum value: constants, both tables and the String fallback.'),
'C22':('type checking and constant evaluation for every GOARCH of the toolchain, typestate of byte views of nodes, and '+AI+'byte provenance of the conversion and writing functions',
  'Every architecture of the toolchain (files chosen, byte order, memory layout of a node) and every length that is a multiple of eight. The interpretation computes with 64-bit int.'),
'C23':(AI+'path enumeration of Magic with byte-equality facts',
  'Decided for every 8-byte prefix; version gate decided from the branch conditions in FileReader.Header.'),
'C26':(AI+'order invariant of the list of pending nodes of a stream search, heap methods checked against container/heap, and each read tied to the nodes being visited',
  'Every index content, size and query. That no node is the child of two (which a corrupt index can claim) is not decided, so once per visit, not once per search.'),
}
todo='No check is registered yet.'
na={
'C24':'Total order of a numeric curve over floating point input; the value computation is out of reach of a static argument here.',
'C25':'Round-trip equality over whole files is a runtime value property; its structural parts are C01, C02, C08, C09, C15 and C16.',
}
checks=[]; nal=[]
for i in ids:
    if i in claimed:
        t,n=claimed[i]
        checks.append(dict(property=i,quick_cmd='bash check.sh %s quick'%i,thorough_cmd='bash check.sh %s thorough'%i,technique=t,level='other',level_note=n))
    else:
        nal.append(dict(property=i,reason=na.get(i,todo)))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=nal),open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
