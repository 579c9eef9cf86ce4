package main

// The properties and what decides them.

func init() {
	bc := func(c *Checker) { c.once("bc", func(s *Checker) { s.checkBlockCache() }) }
	crash := []string{"bounds", "slice", "index", "nil", "panic", "makeslice", "div", "assert"}
	bcExplain := "Every exported operation of BlockCache (and New) was interpreted abstractly from an arbitrary cache satisfying its invariant, following one arbitrary block and one arbitrary byte of it through all paths; loops are summarised by inductive invariants. Storage callbacks may fail at any call. "
	floors := func() map[string]int { return map[string]int{"roots": 14, "functions": 14, "obligations": 200} }
	def := func(id, title, explain string, rules ...string) {
		register(&check{id: id, title: title, run: bc, rules: rules, floors: floors(), explain: bcExplain + explain,
			assumptions: []string{"block size at least 1; callers of the cache do not modify it concurrently"}})
	}
	def("C01", "Flush writes back every modified block", "Decided here: which blocks are marked as pending after each operation, and which are written back.")
	def("C02", "Failures of storage callbacks are reported and leave the state intact", "Decided here: error values returned, and state after failures.")
	def("C03", "Blocks are fetched at most once and never overwrite modifications", "Decided here: fetch calls and presence marks.")
	def("C04", "Ranges are checked before anything is touched; no crash", "Decided here: bounds errors, index and slice expressions.", crash...)
	def("C05", "Arguments of the storage callbacks", "Decided here: block index, buffer length and buffer contents at each callback call.")
	def("C06", "Resizing the cache", "Decided here: sizes and marks after Resize and New.")
	def("C07", "Reads and writes move exactly the requested bytes", "Decided here: bytes of buffers and cache after each operation.")

	register(&check{id: "C36", explain: "CompressRLE8 and DecompressRLE8 were interpreted for a run of arbitrary byte and length delivered by the grouper, resp. an arbitrary input; the tokens written are counted by ghost variables and compared with the length of the run on every path. GetNextRun was held to the contract the compressor relies on.", title: "RLE8 compression represents every run in full", run: func(c *Checker) {
		c.once("rle8", func(c *Checker) {
			c.compress("CompressRLE8", "C36", false)
			c.decompress("DecompressRLE8", "C36", false)
		})
		c.once("grouper", func(c *Checker) { c.grouper() })
	}, rules: append([]string{"C39", "C39e"}, crash...), floors: map[string]int{"roots": 2, "obligations": 8}})
	register(&check{id: "C37", explain: "Every function of the package was interpreted on its own; every error a call may return must reach an error result on every path, except io.EOF from reading, and a compressed stream that was created must be completed before success is reported.", title: "Compression never reports success after a failed read or write", run: func(c *Checker) {
		c.once("comperr", func(c *Checker) { c.compErrors() })
		c.once("grouper", func(c *Checker) { c.grouper() })
	}, rules: []string{"C39e"}, floors: map[string]int{"roots": 5, "obligations": 10}})
	register(&check{id: "C41", explain: "Every function of the library was interpreted on its own with unknown callees; on every path, an error a call returned must reach an error result (possibly wrapped), or the path must be one on which it is known to be the end of the input or the absence of an object. Loops are solved to a fixpoint, so errors lost in later iterations are found.", title: "No error from storage, streams or implementations is dropped", run: func(c *Checker) {
		c.once("liberr", func(c *Checker) { c.libErrors() })
	}, floors: map[string]int{"roots": 100, "obligations": 200}})
	register(&check{id: "C40", explain: "The initialisers of all packages were interpreted to find the error values and that they are distinct; WithMessage, Wrap and CastToDriverError of every error type were interpreted for arbitrary errors, and errors.Is was decided on the result by following Is, Unwrap and equality.", title: "Errors keep their identity when they are annotated or wrapped", run: func(c *Checker) {
		c.once("errid", func(c *Checker) { c.errIdentity() })
	}, floors: map[string]int{"sentinels": 30, "annotations": 7}})
	register(&check{id: "C45", explain: "The main functions were interpreted with file operations that may fail at any call; on every path after a failure the process must exit with a nonzero status or panic, success may only be printed once the output was closed without an error, and no file is opened unless the command line has two arguments, the first of which names what is read and the second what is written.", title: "Command line tools report failure through their exit status", run: func(c *Checker) {
		c.once("cli", func(c *Checker) {
			c.cli("cmd/zipimage")
			c.cli("cmd/unzipimage")
			c.cli("cmd")
		})
	}, floors: map[string]int{"roots": 3, "obligations": 8}})
	register(&check{id: "C38", explain: "CompressRLERecursive and DecompressRLERecursive were interpreted for a run of arbitrary byte and length, resp. an arbitrary input; the counts written are added up by ghost variables and compared with the length of the run on every path.", title: "Recursive RLE compression and decompression agree on every run", run: func(c *Checker) {
		c.once("rler", func(c *Checker) {
			c.compress("CompressRLERecursive", "C38", true)
			c.decompress("DecompressRLERecursive", "C38", true)
		})
		c.once("grouper", func(c *Checker) { c.grouper() })
	}, rules: append([]string{"C39", "C39e"}, crash...), floors: map[string]int{"roots": 2, "obligations": 8}})
	register(&check{id: "C39", explain: "GetNextRun was interpreted for an arbitrary stream of bytes, any read of which may fail or end; the length returned is compared with the bytes consumed, and the byte that ends a run must have been put back.", title: "Byte runs are grouped maximally and none is lost", run: func(c *Checker) {
		c.once("grouper", func(c *Checker) { c.grouper() })
	}, rules: append([]string{"C39e"}, crash...), floors: map[string]int{"roots": 1, "obligations": 4}})
}
