"""Which workloads decide which property, and which findings of a shared workload are about another property."""

REAL = ["all of kelcoro (headers of /repo/include, compiled into the simulated program)", "libstdc++ <thread>, <mutex>, <condition_variable>, "
        "<atomic>, <memory_resource>, containers (headers)", "GCC's coroutine implementation", "workload coroutines and callables"]
STUB = ["thread creation/join/detach, mutexes, condition variables, futexes (atomic wait/notify), yield, sleep and clocks: the simulator",
        "which thread runs at every scheduling point: seeded scheduler",
        "std::atomic operations: operational memory model with vector clocks; loads may return older values the model allows; weak CAS may fail",
        "operator new/delete, malloc: simulated heap with quarantine; may fail on request inside fault scopes"]
ASSUME = ["the search samples schedules and faults; a quiet run is evidence, not proof",
          "memory orderings weaker than consume and load buffering / out-of-thin-air outcomes are not simulated; seq_cst is treated at "
          "least as strong as in the standard",
          "compiled with GCC 13 at -O1; miscompilation and behaviour of other compilers is out of scope",
          "uninstrumented libstdc++.so functions are trusted"]

POOL = {"pool_mixed": 4, "pool_drain": 2, "pool_self_feeding": 2, "pool_stop_by_other": 2, "worker_mixed": 2, "queue_consumers": 2}
ORDER = ["fifo", "list-split", "overlap", "queue-thread"]
STATUS = ["spurious-cancel", "status", "after-stop", "wrong-thread"]

PROPS = {
    "C01": dict(tus=["pool"], scenarios=POOL, ignore=ORDER + STATUS),
    "C02": dict(tus=["pool"], scenarios=POOL, ignore=["spurious-cancel", "status"]),
    "C03": dict(tus=["pool"], scenarios=POOL, ignore=ORDER),
    "C04": dict(tus=["pool"], scenarios=POOL, ignore=ORDER + STATUS),
    "C07": dict(tus=["latch"], scenarios={"latch_mixed": 4, "latch_barrier": 2}),
    "C08": dict(tus=["events"], scenarios={"event_mixed": 1}),
    "C09": dict(tus=["events"], scenarios={"event_when": 1}),
    "C05": dict(tus=["ctor"], scenarios={"ctor_faults": 3, "ctor_concurrent": 1}),
    "C06": dict(tus=["ctor"], scenarios={"pool_resource": 1}),
    "C10": dict(tus=["async"], scenarios={"async_mixed": 3, "async_alloc": 1}),
    "C11": dict(tus=["lthread"], scenarios={"lthread_mixed": 2, "lthread_stop": 1}),
    "C12": dict(tus=["task"], scenarios={"task_tree": 3, "task_get": 2, "task_abandon": 1}),
    "C13": dict(tus=["when"], scenarios={"when_all_tasks": 6, "when_dropped": 1}),
    "C14": dict(tus=["when"], scenarios={"when_any_tasks": 6, "when_dropped": 1, "when_any_abandoned": 1}),
    "C15": dict(tus=["channel"], scenarios={"channel_values": 2, "channel_refs": 1}),
    "C16": dict(tus=["generator"], scenarios={"generator_values": 2, "generator_refs": 1, "generator_nothing": 1}),
    "C17": dict(tus=["resource"], scenarios={"resource_mixed": 3, "resource_pmr": 1}),
    "C18": dict(tus=["stackres"], scenarios={"stack_resource_lifo": 4, "stack_resource_rounds": 1, "stack_resource_frames": 3}),
    "C21": dict(tus=["hops"], scenarios={"hops_mixed": 3, "hops_refused": 1, "hops_nested": 1}),
    "C23": dict(tus=["generator"], scenarios={"inplace_generator_mixed": 1}),
    "C24": dict(tus=["hops"], scenarios={"hops_affinity": 2, "hops_hashes": 1}),
    "C25": dict(tus=["lost"], scenarios={"lost_exception": 1}),
    "C26": dict(tus=["hops"], scenarios={"hops_spread": 1}),
    "C27": dict(tus=["task", "when"], only=["context"], scenarios={"task_tree": 3, "task_get": 2, "task_abandon": 1, "when_all_tasks": 2, "when_any_tasks": 2}),
    "C28": dict(tus=["scale"], scenarios={"flat_stack": 1}),
    "C29": dict(tus=["prims"], scenarios={"primitives": 1}),
    "C19": dict(tus=["stack"], scenarios={"stack_mixed": 1}),
}

# hundreds of elements instead of a handful: long runs, so only a few of them
SCALE = {
    "C01": ["queue", "pool"], "C02": ["queue"], "C03": ["queue"], "C04": ["queue", "pool"], "C07": ["latch"], "C08": ["event"],
    "C11": ["lthread"], "C12": ["task"], "C13": ["when"], "C15": ["channel"], "C16": ["generator"], "C18": ["stackres"],
    "C19": ["stack"], "C23": ["inplace"],
}
# user types whose copies throw
VALUES = {"C06": "args", "C10": "results", "C12": "results", "C15": "yields", "C16": "yields", "C17": "args", "C23": "yields"}
# everything combined
MIX = {"C01": ["stopped", "programs"], "C03": ["stopped"], "C04": ["stopped"], "C12": ["programs"], "C13": ["programs", "stopped"],
       "C14": ["programs", "stopped"], "C15": ["programs", "stopped"]}
SCALE2 = {"C06": ["frames"], "C09": ["events"], "C13": ["all_pack"], "C14": ["any_pack"], "C17": ["frames"]}
for p, c in PROPS.items():
    t = sum(c["scenarios"].values())
    c["scenarios"] = {s: max(1, 96 * k // t) for s, k in c["scenarios"].items()}  # each property: about 100
    for tu, names in (("scale", SCALE.get(p)), ("scale2", SCALE2.get(p))):
        if names:
            c["tus"] = c["tus"] + [tu]
            c["scenarios"] |= {"scale_" + x: 4 // len(names) for x in names}
    if p in VALUES:
        c["tus"] = c["tus"] + ["values"]
        c["scenarios"]["values_" + VALUES[p]] = 10
    if p in MIX:
        c["tus"] = c["tus"] + ["mix"]
        c["scenarios"] |= {"mix_" + x: 10 // len(MIX[p]) for x in MIX[p]}

# every hand-over of every other property's workloads; only memory findings count here
MEMORY = ["race", "use-after-free", "out-of-bounds", "double-free", "bad-free", "corrupt", "crash", "destroyed-in-use"]
PROPS["C20"] = dict(tus=sorted({t for c in PROPS.values() for t in c["tus"]}), only=MEMORY,
                    scenarios={s: w for c in PROPS.values() for s, w in c["scenarios"].items()})

NOT_APPLICABLE = {
    "C22": "Overload resolution at compile time: there is no schedule, clock, fault or interleaving for the property to depend on. (What the "
           "deduced promise does with the resource at run time is C17.)",
}
NOTES = ("No hooks in /repo: the seams are the C++ runtime (pthread, futex, clock, operator new) and GCC's -fsanitize=thread instrumentation callbacks, "
         "which the simulator implements itself. See DESIGN.md.")
