#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T1 = "model-based property testing of generated operation histories against a reference model, with shrinking"
T = {
 "C03": T1 + "; adversarial handle generation, AddressSanitizer build",
 "C04": T1 + "; instance registry and allocation counting",
 "C08": T1 + "; generation counters preset next to their boundaries",
 "C10": T1 + "; panics injected into closures, Clone, Drop, capacity and generation overflows, AddressSanitizer build",
 "C11": T1 + "; exhaustive ordered pairs of borrowed accesses on small worlds",
 "C12": T1 + "; histories at the 2^24 limit",
 "C05": "generated worlds and queries compiled and run against a set-logic oracle, with generated programs that must be rejected",
 "C15": "generated declarations compiled and run against a fold of the discriminant rule, with generated declarations that must be rejected",
 "C16": "differential testing of generated declarations and queries with #[cfg] items against twins with the items deleted",
 "C18": "generated client programs that must be rejected, each with a minimal twin that must be accepted; generated expansions checked for unsafe",
 "C19": "differential testing of the same generated histories in every feature set and build profile",
}
L = {"C10": "fault_enumeration"}
N1 = ("Bounded random search: {} Trusts the reference model, the instrumented components and the checking allocator in harness/; "
      "counts per run are in the evidence file.")
N = {
 "C01": N1.format("every step of thousands of histories (plus recycling one position 2^22 times) is compared on all lookup paths."),
 "C02": N1.format("values of every live entity are compared over every read path during and after each history."),
 "C03": N1.format("forged bits, foreign and unchecked handles are presented to every safe API; memory errors are seen through poisoned memory, canaries and AddressSanitizer."),
 "C04": N1.format("the set of live component instances is compared after every operation and must be empty at the end, with no block left allocated."),
 "C06": N1.format("each pass of every iteration path is compared with the model's live set, with early exits at generated positions."),
 "C07": N1.format("the decision vector of every destroy loop is generated; visits, removals, survivors and the handed direct handles are compared."),
 "C08": N1.format("all handles of a history are kept and must differ; counters are preset next to 2^32 through a guarded hook, one position is recycled 2^24 times (2^32 in the thorough tier)."),
 "C09": N1.format("each direct handle is tracked with the removals since it was issued, and probed on all paths."),
 "C10": "Faults enumerated by generation: the k-th closure call, Clone or Drop panics, counters overflow, borrows conflict; afterwards the whole model must still agree and everything must be dropped once.",
 "C11": N1.format("all ordered pairs of borrowed accesses of the small worlds are enumerated, deeper nestings are drawn."),
 "C12": N1.format("exact len and capacity laws after each operation; six histories per run fill an archetype to 2^24 entities, past it, and refill it."),
 "C13": N1.format("a clone is compared on every path at the moment of cloning and both worlds then follow independent models."),
 "C14": N1.format("algebraic laws over boundary and random bit patterns for each archetype of each world."),
 "C17": N1.format("event lists and size hints are compared with the model's lists."),
 "C05": "Generated worlds and queries; expected archetypes and bindings come from a few lines of set logic in the generator. Trusts rustc.",
 "C15": "Generated declarations; expected ids come from a fold in the generator. Trusts rustc.",
 "C16": "Generated declarations; the twin without the disabled items is compiled and run next to the original. Trusts rustc.",
 "C18": "A generated corpus of unsound programs in sound/unsound pairs: a finite sample of all unsound programs. Trusts rustc's borrow checker and auto traits.",
 "C19": "The same histories must give the same observations in 8 feature sets with debug assertions on and off; wraparound is exercised at the preset counter boundary.",
}
CLAIM = os.environ.get("CLAIM", "").split() or sorted(N)
REASON = {}
m = {
 "version": 1,
 "setup_cmd": "bash bin/setup.sh",
 "hooks": {"guard": "cfg(gecs_verif)", "enable": "RUSTFLAGS=\"--cfg gecs_verif\" (set by bin/m1.py)", "source_commits": ["04046f8"]},
 "checks": [{
   "property": p,
   "quick_cmd": f"python3 bin/check.py {p} quick",
   "thorough_cmd": f"python3 bin/check.py {p} thorough",
   "technique": T.get(p, T1),
   "level": L.get(p, "exploration"),
   "level_note": N[p],
 } for p in CLAIM],
 "not_applicable": [{"property": p, "reason": REASON.get(p, "not built yet")} for p in sorted(N) if p not in CLAIM],
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
