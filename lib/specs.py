"""What each property's check runs."""
import concurrent.futures, os, sys

from . import build
from .runner import Job

# Each entry: `runs` is a list of dicts
#   harness, backend, san, mode, shards, iters (quick, thorough), perturb list, env, wraps, libs
SPECS = {}


def spec(pid, technique, note, rule, runs, level="exploration", assumptions=(), parallel=None):
    SPECS[pid] = dict(technique=technique, note=note, rule=rule, runs=runs, level=level, assumptions=list(assumptions))
    if parallel:
        SPECS[pid]["parallel"] = parallel


def R(harness, backend="nl", san="asan", mode="", shards=1, quick=0, thorough=None, perturb=(0,), env=None, **kw):
    return dict(harness=harness, backend=backend, san=san, mode=mode, shards=shards, quick=quick,
                thorough=thorough if thorough is not None else quick * 20, perturb=list(perturb), env=env or {}, **kw)


def build_all(pid, tier):
    """Builds every binary of the property, side by side."""
    todo = {}
    for run in SPECS[pid]["runs"]:
        if not run.get("only_tier") or run["only_tier"] == tier:
            todo[(run["harness"], run["backend"], run["san"])] = {k: run[k] for k in ("sources", "wraps", "libs", "extra", "proto") if k in run}
    with concurrent.futures.ThreadPoolExecutor(len(todo)) as ex:
        futs = {k: ex.submit(build.build_harness, *k, **kw) for k, kw in todo.items()}
        return {k: f.result() for k, f in futs.items()}


def make_jobs(pid, tier, seed):
    if pid == "C26":
        return generator_jobs(tier, seed)
    jobs = []
    bins = build_all(pid, tier)
    for run in SPECS[pid]["runs"]:
        if run.get("only_tier") and run["only_tier"] != tier:
            continue
        binary = bins[(run["harness"], run["backend"], run["san"])]
        iters = run[tier]
        shards = run["shards"] if tier == "quick" else run.get("tshards", run["shards"])
        for s in range(shards):
            p = run["perturb"][s % len(run["perturb"])]
            args = ["--seed", str(seed), "--shard", str(s), "--mode", run["mode"]]
            if iters:
                args += ["--iters", str(iters)]
            if tier == "thorough":
                args.append("--thorough")
            env = dict(run["env"])
            env["VERIF_PERTURB"] = str(p)
            env["VERIF_PERTURB_SEED"] = str(seed * 1000 + s)
            jobs.append(Job(binary, args, env, timeout=280 if tier == "quick" else 7200,
                            label=f"{run['harness']}/{run['mode'] or 'default'} {run['backend']} {run['san']} perturb={p}"))
    return jobs


def generator_jobs(tier, seed):
    from . import protogen
    protogen.prepare()
    run = SPECS["C26"]["runs"][0]
    return [Job(sys.executable, [os.path.join(build.VERIF, "lib", "protogen.py"), "--seed", str(seed), "--shard", str(s), "--iters", str(run[tier])], {},
                timeout=500 if tier == "quick" else 7200, label="protocol_gen, compiled nl asan") for s in range(run["shards"])]


spec("C04",
     "reference-model monitor over generated streams, ASan+UBSan",
     "Every delivered message is compared with an independent parser of the whole stream, under scripted arrivals that reveal waiting for bytes that are not needed; sampled streams, deterministic per seed.",
     "streams of generated messages and garbage, cut into arrivals; non-trivial: holds a message or garbage; distinct by content, garbage kinds and arrival pattern",
     [R("frame", mode="ignore", shards=8, quick=9000)])
spec("C05",
     "reference-model monitor over generated streams with malformed headers, ASan+UBSan",
     "As C04 in close-on-invalid mode, with the closing of the underlying stream observed; sampled streams, deterministic per seed.",
     "valid messages, one malformed header (or none), further messages, cut into arrivals; distinct by content and arrival pattern",
     [R("frame", mode="close", shards=8, quick=9000)])

PERT = (0, 20, 80, 0, 5, 40, 0, 150)
spec("C01",
     "trace monitor: tag-derived answers and completion counting under multi-threaded stress with a raw answering peer, ASan+UBSan, injected lock delays",
     "A raw peer controls the order of answers and injects unmatched ones; every result is compared with the answer derived from its own request, and readiness is probed at synchronisation points; sampled schedules and answer orders.",
     "one case = one session with its requests, threads, answer order; distinct by answer order (raw peer) or shape (library peer)",
     [R("c01", shards=8, quick=160, perturb=PERT)])
spec("C02",
     "online order/overlap/exactly-once monitor over handler invocations, ASan+UBSan, injected lock delays",
     "Handlers log themselves; the log is compared with the order on the stream as parsed independently; bursts behind a blocked handler, held answers, several sending threads, application-pumped sessions; sampled schedules.",
     "one case = one stream of requests and events; distinct by message kinds and order",
     [R("c02", shards=8, quick=100, perturb=PERT)])
spec("C03",
     "online parser of the written bytes over a stream that yields mid-write, ASan+UBSan, injected lock delays",
     "An independent strict parser reads everything the session writes while many threads send and answer; numbering, matching and exactly-one-response are checked; one session writes more than 65536 messages.",
     "one case = one session with its senders and incoming requests; distinct by the order of message kinds written",
     [R("c03", shards=8, quick=220, perturb=PERT)])
spec("C10",
     "result monitor over generated error texts, malformed answers and unreachable peers, ASan+UBSan",
     "Error texts of all length classes pass through every kind of failing handler; a raw peer gives every malformed failure; sends on unconnected, closed and refusing streams must complete at once.",
     "distinct error texts and answer texts",
     [R("c10", shards=8, quick=420, perturb=(0, 20))])
spec("C11",
     "notification monitor that re-parses the written bytes inside the callback, ASan+UBSan, injected lock delays",
     "Inside every callback the stream is parsed for the complete response; counts per type and response are checked at the end; sampled schedules of deferred answers and competing senders.",
     "one case = a set of callbacks and a sequence of requests; distinct by both",
     [R("c11", shards=8, quick=400, perturb=PERT)])
spec("C12",
     "ASan+LSan+UBSan and lifetime monitor over teardown at random moments, injected lock delays",
     "Sessions are destroyed in every phase, against raw peers, library peers, pipes and TCP; handlers check that the session lives, threads, descriptors and memory are compared before and after.",
     "one case = one lifecycle; distinct by phase, load and how many handlers had run",
     [R("c12", shards=8, quick=1300, perturb=PERT)])
spec("C13",
     "event monitor on the closed callback over every way a session can end, ASan+UBSan, injected lock delays",
     "Each case ends the session in one of ten ways; the callback itself checks that the end has happened and that earlier responses are decoded; counted after destruction.",
     "one case = way of ending, amount of earlier traffic, trailing partial message, pause",
     [R("c13", shards=8, quick=900, perturb=PERT)])
spec("C27",
     "refusal monitor: probe streams that record every use, callbacks that must stay silent, continuing traffic, ASan+UBSan, injected lock delays",
     "Random conversations in which connects, starts and registrations are repeated between and during exchanges; streams and callbacks of refused calls record any use; every error must reach the current callback only.",
     "one case = one conversation with its repeated set-up calls; distinct by the sequence of steps",
     [R("c27", shards=8, quick=700, perturb=PERT)])
spec("C23",
     "deadlock monitor (confirmed all-threads-asleep watchdog) over handlers that call back and wait, ASan+UBSan, injected lock delays",
     "Handlers send requests to raw and library peers and wait for the answers, over pipes, instrumented streams and TCP, while handlers are being registered; a hang is reported only when confirmed.",
     "one case = one conversation; distinct by transport, depth, fan-out and number of threads",
     [R("c23", shards=8, quick=250, perturb=PERT)])
spec("C15",
     "lifetime-counting monitor and value model over random operation sequences, ASan+LSan+UBSan",
     "Contained objects count their own construction and destruction and watch their own address; every value is compared with a model after every step; sampled sequences, deterministic per seed.",
     "one case = one sequence of operations on a pool of dynamic, variant or optional values; distinct by the sequence",
     [R("c15", shards=8, quick=8000)])
spec("C16",
     "monitor over waiters, setters and deadlines, ASan+UBSan, injected lock delays",
     "Waiters of every kind race with the setter; what they read and when they return is compared with the moment the value was set; sampled schedules.",
     "one case = a set of promises, waiters and delays; distinct by their shape",
     [R("c16", shards=8, quick=3000, perturb=PERT)])
spec("C17",
     "conservation and order monitor over self-describing records, ASan+UBSan, injected lock delays",
     "Every write is a record that names its writer and sequence; the reader re-parses them; promptness and closing are decided with blocked readers and a confirmed-hang watchdog; sampled schedules.",
     "one case = writers, record sizes, read sizes, close moment; distinct by shape",
     [R("c17", shards=8, quick=280, perturb=PERT)])
spec("C20",
     "offline history checker (exactly once, order, blocking) over recorded puts and takes, ASan+UBSan, injected lock delays",
     "Puts and takes are recorded with real-time intervals and checked against the queue specification, sequentially and with many producers and consumers; hangs are confirmed; sampled schedules.",
     "one case = one history; distinct by its order of takes",
     [R("c20", shards=8, quick=3000, perturb=PERT)])
spec("C21",
     "online exclusion monitor and deadlock watchdog, ASan+UBSan, injected lock delays",
     "Holders publish themselves in plain shared state that every holder checks; queued writers and readers must all get through; sampled schedules.",
     "one case = readers, writers, holding pattern; distinct by shape",
     [R("c21", shards=8, quick=1500, perturb=PERT)])
spec("C22",
     "byte and result comparison against instrumented underlying streams and real files, ASan+LSan+UBSan, descriptor accounting",
     "Adapters run over streams that fail, read short and count closes; every result, byte and log record is compared; files are compared with what the file system holds; sampled sequences.",
     "one case = one adapter stack and its operations; distinct by shape and results",
     [R("c22", shards=8, quick=4000, perturb=(0, 40))])
NETWRAPS = ("send", "recv", "accept", "accept4", "connect", "socket", "close", "shutdown", "poll")
spec("C18",
     "byte-exact stream monitor with link-time fault injection on socket calls, real signals and descriptor tracking, ASan+UBSan",
     "Socket calls are interposed: partial transfers, interruptions and failures are injected, closed descriptor numbers are occupied so that any later use of one is seen; hangs are confirmed; sampled schedules and faults.",
     "one case = one connection and what is done to it; distinct by sizes, faults and moments",
     [R("c18", shards=8, quick=900, perturb=(0, 20, 80, 0), wraps=NETWRAPS)])
spec("C19",
     "callback, port and descriptor monitor over server lifecycles under fire, with fault injection on accept/connect and real signals, ASan+UBSan",
     "Every stream handed over is identified with its client by content; periods between start and stop are watched for late callbacks; the port is bound again by an independent socket; sampled schedules.",
     "one case = one life of a server and its clients; distinct by operations and counts",
     [R("c19", shards=20, quick=45, perturb=PERT, wraps=NETWRAPS)], parallel=20)
spec("C24",
     "lifetime monitor over generated programs run to the end of static destruction, ASan+LSan+UBSan",
     "Each case is a process with its own static objects, nesting of initialize/terminate and threads; values are used and checked up to the last terminate call and a watched type description must be gone at the end; sampled programs.",
     "one case = one program; distinct by script",
     [R("c24", shards=8, quick=250)])

B3 = ("nl", "ra", "jc")
GOLD = "golden/protocol.json, recorded from the declared members and names of the unchanged tree, stands for the protocol."
spec("C06",
     "round-trip monitor over values generated from a recorded schema, with an independent JSON parser and raw peer, ASan+UBSan",
     "Every struct of the protocol and user-declared extensions: values go in member by member, the text is parsed independently, both directions are compared; messages pass through a session against a raw peer; three JSON libraries; sampled values, deterministic per seed.",
     "one evaluation = one value of every type, or 20 messages through a session; distinct by type and value",
     [R("c06", backend=b, mode="types", shards=3, quick=100, proto=True) for b in B3] +
     [R("c06", backend=b, mode="wire", shards=2, quick=120, proto=True) for b in B3], assumptions=[GOLD])
spec("C07",
     "round-trip monitor over generated trees of dynamic values with an independent strict JSON parser, ASan+UBSan",
     "Trees of all element types, sizes and depths are encoded, parsed independently, decoded and compared element by element, in three JSON libraries; sampled values, deterministic per seed.",
     "one evaluation = one tree; distinct by text",
     [R("c07", backend=b, shards=3, quick=500, proto=True) for b in B3])
spec("C08",
     "reference-decoder monitor over damaged messages, with canaries and error-callback accounting, ASan+UBSan",
     "Messages of every kind are damaged at random places; an independent decoder of the recorded schema says what has to be delivered, with which content, and what has to be dropped and reported; three JSON libraries; sampled, deterministic per seed.",
     "one evaluation = one session with at least 60 messages; distinct by message text",
     [R("c08", backend=b, shards=3, quick=200, proto=True) for b in B3],
     assumptions=[GOLD, "Where JSON itself leaves the type open (1.0 for an integer, integers beyond 64 bits in dynamic values, duplicate members) nothing is demanded."])
spec("C09",
     "ASan+LSan+UBSan and canary monitor over hostile messages and bytes, confirmed-hang watchdog",
     "Grammar-based and mutated hostile messages against sessions with all handlers and pending requests; after each a canary must be handled; three JSON libraries; sampled, deterministic per seed.",
     "one evaluation = one session with 25 hostile messages; distinct by message text",
     [R("c09", backend=b, shards=3, quick=300, proto=True) for b in B3])


def T(h, quick, shards=1, **kw):
    return R(h, san="tsan", quick=quick, shards=shards, perturb=(0, 40, 100), **kw)


spec("C14",
     "ThreadSanitizer over multi-threaded workloads of every part of the interface",
     "A workload that synchronises through the library only, and the stress workloads of the other properties, all under ThreadSanitizer with injected lock delays; sampled schedules.",
     "one case = one workload run; distinct by the cases of the harnesses",
     [T("c14", 60, shards=4, proto=True), T("c14", 1, shards=6, mode="types", proto=True), T("c01", 30, 2), T("c02", 15, 2), T("c03", 20), T("c10", 40), T("c11", 60), T("c12", 160, 2),
      T("c13", 100, 2), T("c16", 500), T("c17", 40), T("c18", 120, wraps=NETWRAPS), T("c19", 12, 2, wraps=NETWRAPS), T("c20", 500), T("c21", 250),
      T("c22", 600), T("c23", 40), T("c24", 60)])
spec("C26",
     "model-based monitor: the generator runs on generated schemas; its output is compiled with the expected types asserted, and run under ASan+UBSan",
     "Schemas of the protocol's kind, and the recorded protocol itself, are served to the real generator by a stand-in for the network; a table made from the schema without the generator says which structs, members, types, defaults and names must come out; sampled schemas, deterministic per seed.",
     "one evaluation = one schema generated three times, compiled and run; distinct by schema",
     [R("c26", shards=8, quick=3, thorough=50)],
     assumptions=["Schemas use the forms the protocol's schema uses (allOf with a base, references, enumerations, type lists, arrays, oneOf held as an object), without cycles other than lists of the type itself."])
