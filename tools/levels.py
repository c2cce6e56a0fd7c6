EXPL = "exploration"
T = "the checked behaviour is that of the executions observed: seeded workloads, exhaustive only where stated. "
LEVELS = {
"C01": ("round-trip monitor over generated and hostile configs", EXPL, T + "Trusts the harness's comparison (own code, not Equal)."),
"C02": ("round-trip monitor through encoding/json", EXPL, T + "Comparison field by field, nil and empty blocks distinguished."),
"C03": ("read-back oracle for quoted values, injection monitor on built text", EXPL, T + "All short strings over a 14-letter alphabet are enumerated."),
"C04": ("reference tokenizer as online oracle over generated, hostile and enumerated text", EXPL, T + "Trusts the reference tokenizer written from the documented rules."),
"C05": ("tree oracle: configs rendered from known trees, reference parser on hostile text", EXPL, T + "Trusts generator and reference parser."),
"C06": ("line oracle: positions recorded while the text is rendered; reference tokenizer on hostile text", EXPL, T),
"C07": ("accounting monitor over errors, statuses and callbacks", EXPL, T),
"C08": ("planted-error monitor: same text with and without invalid statements, reference parser", EXPL, T),
"C11": ("reference resolver compared with recorded open and glob calls", EXPL, T + "Trusts the reference resolver; file identity is the path as included."),
"C12": ("cycle oracle over enumerated and random include graphs", EXPL, T + "All graphs with up to three files are enumerated (thorough: four)."),
"C13": ("inlining oracle and deep-copy monitor for payloads", EXPL, T),
"C14": ("goroutine, descriptor and handle monitors after every call", EXPL, T + "Goroutines are compared by stack, with waiting until they have ended."),
"C15": ("fault injection at every read, open, glob, create, write and close", "fault_enumeration", "Each injected fault is one position of one operation of the workload; positions are enumerated for small inputs and sampled for larger ones. Trusts the injected readers, writers and hooks."),
"C19": ("metamorphic monitor over option sets, reference parser", EXPL, T),
"C28": ("error content oracle over planted errors, reference parser on hostile text", EXPL, T),
"C09": ("oracle over all definitions of user-given sources and of the default tables, probes in every context", EXPL, T + "Default tables are compared with a frozen snapshot; behaviour is enumerated over all names, contexts and argument counts."),
"C10": ("snapshot oracle: every directive of every table probed in every context, with 0-9 arguments and both terminators", EXPL, T + "Trusts the frozen snapshot of the tables, which the release tables agree with each other about."),
"C20": ("map rule oracle: every map-like block with enumerated parameters, reference parser", EXPL, T),
"C21": ("known-text oracle: Lua blocks whose text the generator knows, in trees, in real contexts and through round trips", EXPL, T + "Trusts the generator to write lexically complete Lua."),
"C22": ("recording lexers and builders: the monitor compares the calls they saw with the calls the generated tree calls for", EXPL, T),
"C23": ("file tree monitor: snapshots before and after (content, inode, time, mode), recording creators, parse back", EXPL, T),
"C24": ("layout walker: reads built text along the directives, margins made by counting", EXPL, T + "All indents 0..130 at depths to 120 are enumerated; quoting itself is C03's."),
"C25": ("own comparison as oracle over enumerated small pairs and trees with one difference", EXPL, T),
"C16": ("Go race detector with differential replay: concurrent calls on shared inputs are compared with the same calls alone", EXPL, T + "The race detector sees the executed interleavings; delays and chunked readers vary them."),
"C17": ("watchdog and crash monitor over hostile, enumerated and very large inputs, every public function applied to what comes of them", EXPL, T + "A call that does not end within the generous watchdog is reported only after it does so again alone."),
"C18": ("history monitor: calls repeated after other calls, with deep snapshots of inputs and tables", EXPL, T),
"C26": ("source trees written from known tables, the output of the command read with go/parser and compared", EXPL, T + "Trusts the harness's writer of C sources and frozen mask values."),
"C27": ("output oracle over settings from flags and config file; generated files compiled in the package and their functions called", EXPL, T + "The Go compiler judges compilation."),
"C29": ("differential monitor: bundled match functions against the output of the command with the committed configurations", EXPL, T + "The NGINX sources are not there: they are written from the tables, so masks without override are judged by C10's snapshot only."),
"C30": ("differential monitor: the script on scratch git repositories against the command on the same files; go:generate comments followed in a copy", EXPL, T),
}
