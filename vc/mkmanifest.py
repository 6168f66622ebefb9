"""write MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTER = sys.argv[1].split(",") if len(sys.argv) > 1 else [f"C{i:02d}" for i in range(1, 23)]
COMMON = ("Every obligation Verus generates from the current source of the functions under contract is discharged for all inputs, iterations and stored states. "
          "Assumed: the contracts in units/common and units/*/env.rs on std, actix, tokio, crossbeam, redis and mcaptcha_pow_sha256, the derive macros, and the extraction in tool/ (see DESIGN.md). ")
NOTE = {
    "C01": "Builders and their loops; exact error and exact result.",
    "C02": "All navigation methods over the representation invariant of Defense; values built by deserialisation are outside it.",
    "C03": "Exact saturating arithmetic and both builders.",
    "C04": "One step towards the level the load calls for, and the reply the visitor gets, in MCaptcha and in the counter actor.",
    "C05": "Counter handlers with a ghost history of scheduled messages; that a scheduled message arrives is actix's contract.",
    "C06": "HashCache handlers over the whole map view.",
    "C07": "HashCache handlers over the whole map view, and System::validate_verification_tokens.",
    "C08": "One delayed deletion per store with exact delay and exact target; deletions touch that entry only.",
    "C09": "System::verify_pow against a ghost history of cache, queue and master exchanges, for every reply and failure; that an accepted job's first verdict is the proof check's outcome is composed from C11, C12 and C22.",
    "C10": "System::get_pow and the builder against a ghost history, for every reply and failure.",
    "C11": "QueuedWork and the conversion from Work; the two checks of mcaptcha_pow_sha256 are uninterpreted.",
    "C12": "Representation invariant of the queue and the fold of its whole history; schedules are covered because the queue thread reads one message at a time.",
    "C13": "As C12; turn order and idleness after every message.",
    "C14": "As C12; refusal exactly at the limit, and the wiring of the limit in the builder.",
    "C15": "Embedded master's handlers over the whole registry view.",
    "C16": "CleanUp's asynchronous block with loop invariants over an arbitrary registry and arbitrary, also absent, counter answers; interleavings with other messages are C25.",
    "C17": "GetInternalData and SetInternalData with loop invariants over an arbitrary registry and snapshot.",
    "C18": "Redis modules against a ghost history of commands and replies; the redis crate's command interface is assumed.",
    "C19": "Injectivity of the record key and the commands that use it; atomicity of the single command is Redis's.",
    "C20": "Panic freedom (unwrap, arithmetic, indexing, todo!) and reply delivery of every handler; two todo!() handlers of the redis master are a known finding.",
    "C21": "Length and provenance of every character; rand's distributions are assumed.",
    "C22": "Worker loop, shutdown of the queue and of its manager over all message sequences; operating-system threads are assumed to run.",
}
NA = {
    "C23": "Unpredictability and negligible collision probability are computational and probabilistic; contracts can state where the randomness comes from (C21), not its strength.",
    "C24": "Liveness over every thread and task schedule; contracts decide safety of one call, and Verus has no fairness or scheduling model for actix and std threads.",
    "C25": "Quantifies over interleavings of a clean-up's await points with other messages to several actors; per-function contracts see one handler at a time (the code does lose such visits, see DESIGN.md).",
}
for i in range(1, 23):
    p = f"C{i:02d}"
    if p not in REGISTER:
        NA[p] = "The check of this property is still being built."
m = dict(
    version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="--cfg libmcaptcha_verif", enable="rustflags in /verif/harness/.cargo/config.toml, used only to build the replay harness; the verifier reads the unguarded source", source_commits=["a7bcfe2"]),
    checks=[dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"./check {p}", technique="deductive verification: Verus contracts on functions extracted from the current source; bounded replay looks for a failing input",
                 level="proof", level_note=COMMON + NOTE[p]) for p in REGISTER],
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
    notes="Properties: properties.jsonl. Design, assumptions and results: DESIGN.md. Findings: KNOWN_FINDINGS.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
