"""Texts for MANIFEST.json."""
TODO = 'The static check of this property is not built yet.'
NA = {
    'C47': 'The state after a crash depends on which prefix of an unordered sequence of block writes reached the disk; the code has no ordering or journal whose presence could be checked.',
    'C48': 'The repository documents no concurrency guarantees and uses neither goroutines nor locks, so there is no structure a static analysis could judge.',
}
AI = 'static abstract interpretation of the SSA form (linear inequalities, trace partitioning, inductive loop invariants)'
BASE = 'Nothing is executed. Trusts the Go type checker, go/ssa and the models of library functions in analyzer/*models.go; 64-bit arithmetic is assumed not to overflow.'
def rng(a, b): return ['C%02d' % i for i in range(a, b + 1)]
G = [
    (rng(1, 7), AI + ' of every cache operation, following one arbitrary block and byte; typestate of its marks',
     'Every exported operation from every cache state satisfying the class invariant, so the invariant is inductive over all histories; all outcomes of the callbacks. Block size of at least 1.'),
    (['C08'], AI + ' of the callbacks handed to the cache, for an arbitrary block and every failure of the stream',
     'WrapStream, WrapStreamWithInferredSize and WrapSlice, before and after resizes.'),
    (rng(9, 15), AI + ' of every stream operation against the contracts of the block cache (decided by C01-C07)',
     'Every operation from every stream state and flag combination; one arbitrary byte is followed.'),
    (rng(16, 24), AI + '; typestate and ordering rules on the calls into the implementation',
     'Every exported driver and file operation for an arbitrary implementation, of which any call may fail; names and paths are symbolic. The order of a directory listing is not decided.'),
    (rng(25, 28), AI + '; derived layout compared with its specification as polynomials',
     'Every supported geometry and image content, every failure of the stream. FAT8 directory entries are never filled in by the code.'),
    (['C54'], AI + ' over symbolic names and entries', 'Every ASCII path and every directory entry whose clusters fit the volume.'),
    (['C29'], AI + ' over strings with one arbitrary position followed', 'Every name and byte sequence.'),
    (['C30', 'C32', 'C34'], AI + '; decoded fields compared with the specification bit by bit',
     'Every header, entry, cluster number and legal geometry; hundredths of a second below 200 as the format requires.'),
    (['C31'], AI + '; panics as proof obligations', 'All decoding functions, entered with arbitrary bytes and a validated boot sector.'),
    (['C33', 'C49', 'C50', 'C51'], AI + ' with ghost state over chains and listings',
     'Chains, listings and paths of any length; one arbitrary position is followed. That a failure is reported is decided, not which of several.'),
    (['C35'], AI + ' for each combination of the type bits, the remaining bits symbolic', 'All 16-bit flag words, modes and sizes.'),
    (['C36', 'C38', 'C39'], AI + ' of one run through the compressor, decompressor and grouper',
     'Runs of every length; readers are assumed to report their end with io.EOF itself, as documented by package io.'),
    (['C37', 'C41'], 'error-flow dataflow: path-sensitive tracking of every error value to a result of its function',
     'Every function of the library on its own, loops up to a fixpoint. Errors of writing to memory and of closing a handle of the implementation are exempt.'),
    (['C52'], AI + ' of the methods of entries and information built from an arbitrary handle', 'Every status and name.'),
    (['C53'], AI + '; must-call rule on successful returns', 'Every operation changing metadata or creating objects, for an arbitrary implementation.'),
    (['C40'], AI + ' of the error types; query over all package-level error values', 'Chains of any length by induction.'),
    (['C42'], 'constant evaluation by the type checker and ' + AI + ' of the query methods', 'Every combination of flags; the bits are symbolic.'),
    (['C43'], 'static evaluation of the embedded table against the loading code, abstract interpretation of the loader and accessors', 'Every row, slug and geometry.'),
    (['C44'], 'whole-program query over method sets and the call graph: no promoted method of a nil embedded interface',
     'Every type the library creates with an embedded interface that is left nil.'),
    (['C45'], 'error-flow dataflow over the commands down to os.Exit', 'Every path of both commands.'),
    (['C46'], 'structural reduction: abstract interpretation shows that each side composes inverse stages over the whole stream',
     'Reduces to C36, C38 and to compress/gzip being the inverse of itself, which is trusted.'),
]
T = {i: (t, n) for ids, t, n in G for i in ids}
def tech(i):
    t, n = T[i]
    return t, n + ' ' + BASE
