package main

// Checks that combine the clients of FileReader and FileWriter with the
// one-call analyses of the smaller types.

func needWriter(r *Result) {
	r.need("client states of FileWriter", 10)
	for _, a := range []string{"Header", "Index", "IndexData", "IndexDataPtr", "Data", "Close"} {
		r.need("outcomes of FileWriter."+a, 10)
	}
	r.need("complete record", 10)
	r.need("index record", 2)
}

func needReader(r *Result) {
	for _, w := range []string{"stream", "seekable"} {
		r.need("client states of FileReader("+w+")", 50)
	}
	for _, a := range []string{"Header", "Index", "IndexSearch", "Data", "DataRem", "Rewind", "Close"} {
		r.need("outcomes of FileReader."+a, 50)
	}
}

const writerExplain = "FileWriter is analysed under its most general client: every sequence of calls of all exported methods with arbitrary arguments, as a fixpoint over abstract states. Each call is interpreted abstractly over its SSA form together with a specification automaton (what has been written, declared counts, features written, sticky error, closed); every stream operation and every return is an obligation. "

var ioAssume = []string{"io.Writer.Write returns 0 <= n <= len(p) and an error if n < len(p); io.Reader.Read returns 0 <= n <= len(p) (their documented contracts)",
	"streams do not return the library's own sentinel errors", "a FileReader or FileWriter is used by one goroutine at a time",
	"slices are shorter than 2^48 elements, streams and sums of feature sizes shorter than 2^62 bytes; 64-bit int",
	"the caller does not modify arguments during a call", "tables come from the generated accessors (C20); a table access either returns a value determined by the table or panics"}

const readerExplain = "FileReader is analysed under its most general client, once for a stream that cannot seek and once for one that can: every sequence of calls of all exported methods with arbitrary arguments and arbitrary stream contents and faults, as a fixpoint over abstract states. Each call is interpreted abstractly over its SSA form together with a specification automaton (where the sections start, which bytes were consumed, features delivered, sticky error, end of data, closed). "

func init() {
	writer := func(tags ...string) partUse { return partUse{"writer", tags} }
	reader := func(tags ...string) []partUse { return []partUse{{"reader", tags}, {"seekreader", tags}} }
	checks["C01"] = &checkDef{
		explain: readerExplain + "Every table, index or feature that is returned must be bound to the stream position at which the automaton expects it, for an arbitrary feature k.",
		assume:  ioAssume,
		parts:   reader("read"),
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			r.need("feature delivered", 100)
			r.need("delivery obligation", 100)
		},
	}
	checks["C02"] = &checkDef{
		explain: readerExplain + "Each search must ask for the caller's box, the header's counts and the start of the index; the results must be sorted by offset and the feature at an arbitrary position k of the returned list must be the record at the start of the data section plus the offset of result k; as many features as results.",
		assume:  append([]string{"packedrtree.Search and Seek return refs of the tree in any order, with offsets and ref indexes that are arbitrary numbers (their contract; C15 and C16 check it)", "sort.Sort sorts as documented if Less and Swap do what they must (checked)"}, ioAssume...),
		parts:   reader("search", "sort"),
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			r.need("search event", 4)
			r.need("search result obligation", 4)
			r.need("sort call", 2)
			r.need("Swap method checked", 2)
		},
	}
	checks["C03"] = &checkDef{
		explain: readerExplain + writerExplain + "A call that the automaton does not allow at its point must return an error without any stream operation; no call may panic unless an argument is nil.",
		assume:  ioAssume,
		parts:   append(reader("order", "refuse", "panic"), writer("order", "refuse", "panic")),
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			needWriter(r)
			r.need("refusal obligation", 200)
			r.need("call outcome", 5000)
		},
	}
	checks["C04"] = &checkDef{
		explain: readerExplain + writerExplain + "In the states that follow a failure or Close, every call must return that error, or ErrClosed, without any stream operation; Close must close a closable stream exactly once and report an unfinished file.",
		assume:  ioAssume,
		parts:   append(reader("sticky"), writer("sticky")),
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			needWriter(r)
			r.need("call after failure", 200)
			r.need("call after Close", 200)
			r.need("close outcome", 100)
		},
	}
	checks["C05"] = &checkDef{
		explain: readerExplain + writerExplain + "In every state in which a stream operation of the call has failed, or has been short, the returned error must be non-nil; also for each PropReader and PropWriter method, ReadSchema and Magic.",
		assume:  ioAssume,
		parts:   append(reader("io"), writer("io"), partUse{"props", []string{"io"}}, partUse{"schema", []string{"io"}}, partUse{"magic", []string{"io"}}),
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			needWriter(r)
			r.need("error obligation", 5000)
			r.need("method outcome", 60)
			r.need("ReadSchema success", 1)
		},
	}
	checks["C06"] = &checkDef{
		explain: readerExplain + "io.EOF must imply that the automaton is at the end: the declared number of features was delivered, or the stream ended before the first byte of a feature of a file of unknown count; also for PropReader and ReadSchema.",
		assume:  ioAssume,
		parts:   append(reader("eof"), partUse{"props", []string{"trunc"}}, partUse{"schema", []string{"trunc"}}),
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			r.need("end of data obligation", 20)
			r.need("method outcome", 30)
			r.need("ReadSchema success", 1)
		},
	}
	checks["C07"] = &checkDef{
		explain: writerExplain + "On every return the byte count must equal the sum of the counts the stream reported.",
		assume:  ioAssume,
		parts:   []partUse{writer("count"), {"props", []string{"n"}}},
		run: func(ld *Loaded, r *Result) {
			needWriter(r)
			r.need("method outcome", 60)
			r.need("byte count obligation", 200)
		},
	}
	checks["C08"] = &checkDef{
		explain: writerExplain + "Each write must be the next bytes of the record the automaton expects; each success must complete it; each refusal must contradict the conditions under which the call is allowed.",
		assume:  ioAssume,
		parts:   []partUse{writer("layout", "order", "refuse")},
		run: func(ld *Loaded, r *Result) {
			needWriter(r)
			r.need("layout obligation", 40)
			r.need("table validity obligation", 30)
			r.need("success obligation", 20)
			r.need("refusal obligation", 100)
		},
	}
	checks["C09"] = &checkDef{
		explain: writerExplain + "Where an index is built, the offset of the ref at an arbitrary position k must equal the running sum, defined by its recurrence, of the complete sizes of the features before k; the refs given to the tree must be those, sorted but otherwise unmodified.",
		assume:  ioAssume,
		parts:   []partUse{writer("offsets")},
		run: func(ld *Loaded, r *Result) {
			needWriter(r)
			r.need("offset obligation", 2)
			r.need("tree built", 2)
		},
	}
	checks["C14"] = &checkDef{
		explain: readerExplain + "Every slice, index and make operation, every conversion and every 64-bit addition must stay in range for all values that the stream can supply; memory may be allocated only for a checked header length, for a feature that is being read or in bounded amounts.",
		assume:  ioAssume,
		parts:   append(reader("alloc", "panic", "overflow"), partUse{"props", []string{"bounds", "panic"}}, partUse{"schema", []string{"bounds", "panic", "alloc"}}, partUse{"magic", []string{"panic"}}),
		run: func(ld *Loaded, r *Result) {
			needReader(r)
			r.need("index check", 1000)
			r.need("slice check", 1000)
			r.need("make check", 100)
			r.need("overflow obligation", 1000)
			r.need("allocation obligation", 100)
		},
	}
}
