"""What each property's check consists of."""

# Configurations in which the protocol itself is not executable to the end (on purpose)
UNRUNNABLE = {"topo", "undeclared"}

ORDER = ["orderL", "orderL4", "orderA", "orderP", "orderB"]
ORDERC = ["orderC", "orderC2", "orderC2b", "orderCL", "orderCR", "orderC4", "orderC4b", "orderC5", "orderC6", "orderC7"]
META = ["meta", "metaS", "silent", "meta2", "metaC"]
PAY = ["pay", "pay2", "payP"]
PAYC = ["payC1", "payC2", "mpC2b", "mpCL", "mpCR", "mpC6"]
PACK = ["pack", "packL", "packC"]
EQUIV = ["equiv", "equiv4"]
DUP = ["dup", "dupL", "dupP"]
DEAD = ["dead", "deadA", "dead2"]
ROUNDS = ["rounds", "roundsP", "roundsC", "roundsC4", "roundsC6"]
EVERY = ORDER + ORDERC + ["undeclared", "topo"] + META + PAY + PAYC + PACK + EQUIV + DUP + DEAD + ROUNDS

CRASH = {"local", "panic"}
ERRS = {"prov", "unprov", "guilty", "verify"}
FLOW = {"out", "cf", "recv", "pay", "queue", "next"}

# property -> (slices, aspects in which a divergence violates the property)
SLICES = {
    "C01": (EQUIV + ["packC", "orderP"], CRASH | ERRS | FLOW | {"outcome", "outgoing"}),
    "C02": (META + ["rounds", "roundsC"], CRASH | ERRS | FLOW),
    "C03": (DUP + ["deadA"], CRASH | ERRS | FLOW),
    "C04": (ORDER + ORDERC, CRASH | ERRS | FLOW | {"outcome", "result", "missing", "art"}),
    "C05": (ORDER + ORDERC + PACK + EQUIV + DEAD, CRASH | ERRS | {"out"}),
    "C06": (PAY + PAYC + PACK + EQUIV, CRASH | ERRS | {"sees"}),
    "C08": (PAY + ["payC1"] + PACK + EQUIV + META, CRASH | ERRS | FLOW | {"missing"}),
    "C09": (ORDER + ["orderC", "orderC2b", "topo", "deadA", "dup", "pay"], CRASH | {"cf", "pay", "art", "next", "recv", "outgoing"}),
    "C10": (DEAD + ["pay", "pay2", "equiv"], CRASH | ERRS | FLOW),
    "C11": (EVERY, CRASH),
    "C12": (DEAD + ["pay", "pack", "dup", "dupL", "topo"], CRASH | {"cf", "outcome"}),
    "C13": (DEAD + ["pay", "packL", "orderL", "orderP", "rounds", "equiv"], CRASH | ERRS | {"outcome", "result", "missing"}),
    "C14": (ROUNDS + ["undeclared", "topo"] + ORDER + ORDERC, CRASH | {"next", "out", "queue", "cf", "dest", "result"}),
    "C15": (ORDERC + ["roundsC", "roundsC4", "roundsC6", "metaC"], CRASH | ERRS | FLOW | {"outcome", "result", "missing", "art", "dest", "outgoing"}),
    "C16": (PAYC + ["packC"], CRASH | ERRS | {"sees"}),
    "C24": (ORDER + ORDERC, {"random"}),
    "C19": (["topo", "silent", "metaS"] + ORDER + ["orderC", "orderC2b", "orderCL"], CRASH | {"dest", "outgoing", "art"}),
    "C20": (PAY + PAYC, CRASH | {"sees", "verify", "prov"}),
}

DRIVE = {"outcome", "outgoing", "hang", "steps", "result"} | CRASH | ERRS | {"missing"}
NET = DRIVE | FLOW | {"reports", "random", "rnd", "art", "guilty"}
OVER = ["over", "over2", "overP", "overB", "mix"]
EXTRA = {
    "C21": [("net", ["none", "multi", "fin"] + OVER, "sync", NET - {"random"})],
    "C22": [("net", ["honest", "honestC", "topo1", "topo2", "topo5", "many", "fin"] + OVER, "sync+async", NET - {"random"})],
    "C25": [("net", ["two", "cross", "none", "fin"] + OVER, "judge", {"judged"} | CRASH)],
    "C23": [("smap",)],
    "C24": [("net", ["honest", "honestC", "topo1", "over"], "sync+async", {"random", "rnd"}), ("driver", {"random"})],
    "C04": [("net", ["honest", "honestC", "topo2", "topo5"], "sync", NET - {"random"})],
    "C17": [("driver", DRIVE)],
    "C18": [("driver", CRASH | {"hang", "outcome"})],
    "C05": [("evidence", ["L", "P", "W", "C2"], {"framed"}), ("net", ["honest", "honestC"] + OVER, "sync", CRASH | ERRS)],
    "C06": [("evidence", ["L", "P", "W", "C2"], {"lost", "source", "rejected", "guilty", "panic"})],
    "C07": [("evidence", ["L", "P", "W", "C2", "CL", "CR"], {"framed", "accepted", "panic", "guilty"})],
    "C16": [("evidence", ["C2", "CL", "CR"], {"framed", "accepted", "rejected", "lost", "source", "sees", "panic", "guilty"})],
    "C20": [("evidence", ["P", "W", "C2", "CL", "CR"], {"sees", "accepted", "framed", "lost", "source", "rejected"})],
}


def units(pid, tier):
    us = []
    if pid in SLICES:
        names, aspects = SLICES[pid]
        if tier == "thorough":
            us.append(("slices", [(n, 1, True) for n in names], aspects))
        else:
            us.append(("slices", [(n, 1, False) for n in names], aspects))
    for u in EXTRA.get(pid, []):
        us.append(u)
    return us


PROPERTIES = sorted(set(SLICES) | set(EXTRA))

# property -> (technique, level note), where they differ from those of the session slices
MANIFEST = {
    "C21": ("TLA+ model of all parties and the network with overridden parts (Net.tla) checked with TLC; the synchronous runner with extensions must end in one of the model's terminal states",
            "Every single override of a message part or of finalize() by every party in every round of the protocols of Graphs.tla (content accepted, unprovable or provable error), combinations of two, and extensions that override nothing; each run with many random delivery orders in two wire formats. The model's terminal states are exhaustive for the configuration; the runs sample the orders."),
    "C22": ("TLA+ model of all parties and the network (Net.tla) checked with TLC; executions by the development runners must end in one of the model's terminal states",
            "All directed topologies of up to 3 parties in one round and in pairs of rounds, selected ones of 5 and of 113 parties, chains, branches, and overridden parts; random delivery orders and party orders. The asynchronous development runner: honest parties only."),
    "C25": ("TLA+ model of all parties and the network with overridden parts (Net.tla) checked with TLC; the verdict the specification gives on each terminal state (Judge) is compared with that of the helpers on real executions",
            "As C21, and pairs of misbehaving parties; every party as the target, every error text, correct and foreign shared data; terminal states are exhaustive for the configuration, the runs sample the orders. The wording of the errors of echo rounds is not specified."),
    "C23": ("TLA+ model of maps and their encodings (SMap.tla) checked with TLC (RoundTrip, NoMerge, OrderFree); every behaviour is executed on real maps of several types in three formats",
            "All sequences of up to 4 insertions and removals over 3 keys, all sequences of up to 4 entries including repeated and malformed ones, long maps of up to 600 entries with one repeated key at selected positions (thorough: one more step and key, 4000 entries); 6 key types, 5 value types, JSON, postcard and DER; truncations and inflated lengths of each encoding."),
    "C24": ("TLA+ models of sessions, runners and networks checked with TLC; randomness drawn in the executions that replay them is recorded, and any repetition is a violation",
            "Every call into the model protocol, its extensions and the signer draws 16 bytes from the generator it is given; all draws in an execution (and in two with different seeds) must differ. The specification contributes the executions; the uniqueness itself is a monitor, not a state invariant."),
    "C17": ("TLA+ model of the runners (subset construction over their internal steps) checked with TLC; every environment script is run against the real runners and the observations compared",
            "Driver.tla: run_session and par_run_session with held-up tasks, bursts, full channels, cancellation; the environment waits for one of the observations the specification allows (calls of protocol code, messages sent, unread messages, report). Bounds: 2-4 parties (130 in two slices), one deviating message, bursts of up to 3. Real thread schedules between two observations are those that occur; the specification's set covers all of them."),
    "C18": ("TLA+ model of the runners (subset construction over their internal steps) checked with TLC (Returns, CancelSeen); every environment script is run against the real runners, which must arrive at a specified observation",
            "As C17; a runner is said to hang when it reaches none of the specified observations within 20 s. Slices with 130 parties, all messages held up or an undrained outgoing channel of capacity 1."),
}
NOT_APPLICABLE = {}
