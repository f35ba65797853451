SC = "Exhaustive within the stated bounds over sequentially consistent interleavings of the real code; trusts the scheduler and the std stand-ins in shims/."
IN = "Exhaustive within the stated bounds: every case of each indexed family runs the real code and is compared with an independent reference model; nothing is claimed beyond the bounds."
RN = "Exhaustive over the answers of the random source at a stated resolution (every stratum of every draw), so shares are computed, not estimated; finer structure within a stratum is not seen."
SCHED = "stateless model checking of the real code: all thread interleavings of small programs up to a preemption bound"
HIST = "explicit enumeration of all operation histories of the real code up to a depth, each step compared with a reference model"
ENUM = "bounded exhaustive enumeration of the real code's inputs, each execution compared with a reference model"
T["C01"] = (HIST, "model_checking", IN)
T["C02"] = (SCHED, "model_checking", SC)
T["C03"] = (SCHED + ", histories checked for linearizability against a sequential model", "model_checking", SC)
T["C04"] = (SCHED + ", and all call histories to a depth, against a sequential model", "model_checking", SC)
T["C05"] = ("bounded exhaustive enumeration of (rule list, string) states and their successor under the real step, compared with a reference transition relation", "model_checking", IN)
T["C06"] = ("bounded exhaustive enumeration of (rule, string, index), compared with a reference transition guard", "model_checking", IN)
T["C07"] = ("bounded exhaustive enumeration of (rules, string, n, split) runs of the real code, compared with the iterated reference step", "model_checking", IN)
T["C08"] = (HIST, "model_checking", IN)
T["C09"] = ("exhaustive enumeration of the random source's answers, computing the exact distribution of the real code's choice", "model_checking", RN)
T["C10"] = (ENUM, "model_checking", IN)
T["C11"] = (ENUM, "model_checking", IN)
T["C12"] = (HIST, "model_checking", IN)
T["C13"] = ("bounded exhaustive enumeration of turtle command sequences, each real drawing compared with a reference turtle", "model_checking", IN)
T["C14"] = ("bounded exhaustive enumeration of drawings and canvases; the real document is parsed and its placement recomputed", "model_checking", IN)
T["C15"] = ("bounded exhaustive enumeration of sequences of line kinds, each parse compared with a reference reading", "model_checking", IN)
T["C16"] = ("exhaustive enumeration of the operating system's answers to the real code's file operations up to a deviation bound", "model_checking", IN)
T["C17"] = ("bounded exhaustive enumeration of runs of the real process (files, arguments, earlier contents, size limits), compared with a reference pipeline", "model_checking", IN)
T["C18"] = (ENUM, "model_checking", IN)
T["C19"] = ("bounded exhaustive enumeration of texts and of the stores' answers (every refusal point), event by event against a reference", "model_checking", IN)
T["C20"] = (HIST, "model_checking", IN)
T["C21"] = ("exhaustive enumeration of earlier histories, interning orders, hash seeds and threads in forked processes; results compared byte for byte", "model_checking", IN)
T["C22"] = ("bounded exhaustive enumeration of texts through the whole real pipeline; every execution must end without a panic", "model_checking", IN)
T["C23"] = ("exhaustive enumeration of the random source's answers over derivations, computing the exact distribution of results", "model_checking", RN)
T["C24"] = ("explicit enumeration of all histories of calls with every behaviour of the caller's code, compared with a reference model; stateless model checking of small programs of threads that make such calls", "model_checking", SC)
T["C25"] = ("bounded exhaustive enumeration of what an inner interpretation returns, fails or panics with, each run recorded and compared with a reference; stateless model checking of threads sharing one interpretation", "model_checking", SC)
T["C26"] = ("bounded exhaustive enumeration of elements and attribute texts; the real text is parsed as XML and compared with what the element holds", "model_checking", IN)
T["C27"] = ("bounded exhaustive enumeration of failing calls (texts, causes, faults of files and stores), each error compared with a reference", "model_checking", IN)
T["C28"] = (HIST, "model_checking", IN)
T["C29"] = ("bounded exhaustive enumeration of command lines run by the real process, compared with the reference alphabet, turtle and pipeline", "model_checking", IN)
T["C30"] = (HIST, "model_checking", IN)
T["C31"] = (HIST, "model_checking", IN)
T["C32"] = (SCHED + " that each do whole jobs, each result compared with that of the job alone in a process", "model_checking", SC)
