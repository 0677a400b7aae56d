"""Technique and level notes per property, and reasons for unclaimed ones."""
VG = "abstract interpretation of MIR to value graphs; equality of summaries by normal form / random interpretation"
NOTES = {
 "C01": (VG, "stream content, returned address and lock extent of every write, for any state of the sink; unwinding callbacks left out"),
 "C02": (VG, "every byte any sink operation appends to the backing storage; split_streams against a reference parser of frames"),
 "C03": (VG, "flush, drop and into_bytes from any state"),
 "C04": ("effect analysis: failure-forking abstract interpretation of MIR; outcomes that succeed although an operation failed", "all tools and options, all sink and profiler functions; failure of close left out"),
 "C05": ("lock-order and lockset analysis over MIR summaries", "every public function and trait implementation of measureme"),
 "C06": (VG + "; bit-vector terms", "both endiannesses"),
 "C07": (VG, "panic condition of each constructor is exactly 'not representable'"),
 "C08": (VG, "each recording call on a symbolic profiler"),
 "C09": (VG, "all ways of ending or not ending an interval"),
 "C10": (VG, "string id ranges and conversions"),
 "C11": (VG, "all component lists the crate implements"),
 "C12": (VG, "single and bulk mappings, any number of ids"),
 "C13": (VG, "any string data and index; references followed to the depth of the generated tables"),
 "C14": (VG, "builder output and parser for any text"),
 "C15": (VG, "writers and readers of all headers"),
 "C16": (VG, "version dispatch and each accessor for both decoders; the v8 decoder itself is an external crate"),
 "C17": (VG, "iterators in any state"),
 "C18": (VG, "symbolic records"),
 "C19": (VG + "; loop summaries over keyed maps", "any event sequence in the documented order"),
 "C20": (VG + "; loop summaries over keyed maps", "any event sequence; files written by both tools"),
 "C21": (VG, "all kinds and timestamps"),
 "C22": (VG, "any two results"),
 "C23": (VG + "; loop summaries over iterators and ordered maps", "one to three profiles of any events on one thread"),
 "C24": (VG + "; table model", "all options"),
 "C25": (VG + "; JSON model", "all options"),
 "C26": (VG, "all options"),
 "C27": (VG, "any profile file"),
 "C28": (VG + " and cross-table agreement of names, descriptions and readings", "each counter variant"),
 "C29": (VG + "; JSON model", "any command line"),
 "C30": ("enumeration of unsafe operations in MIR with per-operation bounds, alignment, initialisation and lifetime obligations over value graphs", "every unsafe operation of the workspace; foreign calls counted only"),
 "C31": ("type-level: compile-fail witnesses with controls; rule over visible constructors, fields and trait implementations", "the misuses listed in the property"),
 "C32": (VG, "any event sequence given to the builder"),
 "C33": (VG + "; type facts of serde derives", "any two results"),
 "C42": ("termination analysis: progress of each loop's and recursion's steering values over value graphs", "string reading, page splitting, event iteration, analysis loops"),
 "C44": (VG, "buffer and page bounds as inductive invariants of every sink operation"),
}
NA = {
 "C40": "accuracy of hardware counters is a property of the CPU and kernel (perf_event_open, rdpmc scheduling and skid); no rule over the source can bound it. The source-visible part (which counter is opened, read and named) is C28.",
 "C41": "monotonicity and accuracy of clock values is a property of the operating system clock at run time; the source-visible parts (end read after start, same clock and origin) are checked under C09.",
 "C43": "recording time is a quantity of the running system (allocator, scheduler, disk); no sound static bound is within reach. The part with a static bound, how much a stream buffers, is C44.",
}
