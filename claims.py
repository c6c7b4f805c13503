T = "deterministic simulation: "
TRUST = " Trusted: the instrumentation (a counter in front of every statement) leaves behaviour as it is, and the simulator's own stream, model and generator. Sampling, not exhaustive: it shows the absence of violations on the seeds it ran."
TRUSTW = " Trusted: the simulated browser (elements, events, task queues, navigation, fetch) behaves like real ones in what the page uses. Sampling, not exhaustive."
CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"]
NOTE = {
 "C01": (T + "seeded search over programs, damage and stream faults, with step budgets", "Each run parses a generated, mutated, damaged or deeply nested text in a random mode over a simulated stream under a step budget and a bounded stack; hangs are budget overruns, crashes are deaths of the child process." + TRUST),
 "C02": (T + "seeded search over delivery schedules of the input stream, against a reference delivery", "Every text is parsed once from plain runes and again over several simulated deliveries (chunkings, empty reads, buffer sizes, EOF with data); the stream model checks the pushback contract." + TRUST),
 "C03": (T + "seeded fault injection at every kind of position of the input stream", "Read and pushback failures of many error values, lasting or transient, at random character positions; the located error, its chain and the silence of the stream afterwards are checked." + TRUST),
 "C04": (T + "seeded crash points (torn sources) against the generator's knowledge of the program", "Programs are generated together with the structure needed to know, for a cut, whether what is left is complete; statement boundaries are compared element by element." + TRUST),
 "C05": (T + "seeded histories of reads, pushbacks, ends and failures against a position model", "Scanner histories against a small reference model of positions; errors of torn, failing and shifted programs against known positions." + TRUST),
 "C06": (T + "seeded stalls of the input stream", "The simulated stream stalls for ever at a chosen character; a parse whose result is decided by then must return without another read." + TRUST),
 "C07": (T + "seeded schedules of temporary ends of input", "The simulated stream reports end of input and then more data, at random points; nothing after the first end may have an effect." + TRUST),
 "C08": (T + "seeded corruption of the byte stream", "Invalid UTF-8 of every form at random places and splits, against a reference position model." + TRUST),
 "C09": (T + "seeded preemptive scheduling of parser threads with stalls and failures, under the race detector", "Threads run one at a time and are preempted between statements as the seed decides; each result is compared with the same parse alone, unsynchronised accesses are found by the race detector (the scheduler's own hand-overs are hidden from it), threads that a stalled one holds up are found at the end of the run." + TRUST),
 "C10": (T + "seeded preemptive scheduling of rendering, parsing and clearing threads, under the race detector", "Trees are dumped and rendered before, between and after everything else that happens in the run." + TRUST),
 "C11": (T + "seeded histories of parses with faults, compared with a fresh process", "The probe of each run is repeated in a process of its own." + TRUST),
 "C12": (T + "seeded file, output and process faults under the estree tool", "The tool's main runs in a process of its own over a simulated file system, standard streams and process; what standard output accepted is compared with documents made by the library, whatever fails and whenever it is killed." + TRUST),
 "C13": (T + "seeded file and output faults under the estree tool", "As C12; the exit status and the diagnostics are compared with what the environment knows to have failed." + TRUST),
 "C14": (T + "seeded file faults and descriptor limits under the estree tool", "As C12; the simulated file system counts descriptors." + TRUST),
 "C15": (T + "seeded histories of requests, clock jumps and delays against the library as reference", "The real bundle runs under the real page in a simulated browser; every answer is compared with the library built natively." + TRUSTW),
 "C16": (T + "seeded schedules of edits, timers, bundle loading, stalls and navigation in a simulated browser", "The real page and bundle under a seeded scheduler of a browser's task queues on a simulated clock; convergence is demanded one simulated second after the last change." + TRUSTW),
 "C17": (T + "seeded faults of fetching, compiling, starting and running the bundle in a simulated browser", "As C16, with failures at every stage of the bundle's life, exits between and within parses, and bounded memory." + TRUSTW),
 "C18": (T + "seeded crashes, reloads and navigations in a simulated browser, with only address and clipboard surviving", "As C16; every link that was shared is opened again." + TRUSTW),
 "C19": (T + "seeded histories of parses by one parser over a stream that fails, stalls or ends, against a new parser for each", "One parser parses parts of a stream in turn; each result is compared with that of a new parser whose stream begins there and meets the same fault; where a call failed, the next one has to match a new parser that begins at the character reached or at what was read ahead." + TRUST),
 "C20": (T + "seeded deliveries, stalls, failures, ends and damage of the stream under the lexer alone, and lexers that take turns", "Token by token, against the tokens of the undisturbed text; what has to be delivered by a stall is known from where the tokens end." + TRUST),
 "C21": (T + "seeded file faults and stalls under the estree tool", "As C12; when the tool ends or waits for ever in the simulated file system, what standard output has accepted is compared with the documents of the files before." + TRUST),
 "C22": (T + "seeded long histories of parses with faults and endless streams, with the live memory as an invariant", "Each run does the same amount of work twice and measures the heap after a collection; what then keeps growing by more than 40000 bytes + 8 per parse is a violation, so a leak smaller than that is not seen." + TRUST),
 "C23": (T + "seeded histories of peeks and scans over a stream that fails, stalls or ends, against a list of the lexer's tokens", "The same operations are done on the scanner and on a plain list of what another lexer returns over the same stream, delivered plainly; every answer and the point at which they wait or fail have to be the same." + TRUST),
}
PURE = "A pure function of the text: no schedule, clock, fault, interleaving or second party takes part in it, so there is nothing for a simulator to decide; deciding it takes a reference parser or conformance suite (differential testing or proof), not simulation."
NA = {
 'C30': PURE, 'C31': PURE, 'C32': PURE, 'C33': PURE, 'C34': PURE, 'C35': PURE, 'C36': PURE, 'C37': PURE, 'C38': PURE,
}
