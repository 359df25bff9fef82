"""Writes /verif/DESIGN.md: fixed text below + bounds/assumptions read from the checks + the seeded-bug table."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

def consts(pid):
    t = ast.parse(open(os.path.join(V, "checks", pid.lower() + ".py")).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out

# what is enumerated / oracle / why tests cannot reach it
HOW = {
"P01": ("every operation in every call form x source x operand x callback, then all chains of operations",
        "an independent two-constructor model (Just/NONE) written in mc/values.py; payloads compared by identity, callbacks by recorded calls",
        "a test samples a few payloads; here falsy, None, nested, hostile payloads meet every operation and every chain"),
"P02": ("as P01 for Ok/Error and Success/Failure", "two-constructor model MOk/MErr", "as P01; first-failure order of all operand pairs"),
"P03": ("every conversion x every source, then all round trips of conversions", "models of Option/Result/None with an explicit 'not expressible' case", "losses show only for particular payloads (None, falsy, nested) and particular conversion chains"),
"P04": ("all small blocks x every operation x every argument; all operation histories; size ladder", "Python tuples; all earlier blocks are re-read after each step (persistence), callbacks recorded", "aliasing and position errors need a particular history, count or callback failure position"),
"P05": ("breadth-first search over the reachable map structures (states deduplicated by tree shape up to order-preserving renaming), every query on every state; all short histories over keys x special values", "a dict and sorted()", "rebalancing bugs need a particular insertion/removal history (double rotations, remove of an inner node with a deep subtree)"),
"P06": ("the same search, with every older map re-read after every operation; all structures of equal content pairwise", "recorded contents; dict equality", "sharing bugs show only for an older version of a particular shape"),
"P07": ("counting keys: comparisons per operation on every reachable small map, on complete pattern families at large sizes, and under a greedy adversary that tries every gap", "a logarithmic bound; dict for contents", "a lost rebalance case degrades only certain patterns and passes every functional test"),
"P08": ("all small inputs in every source kind x operation x count; all pipelines of 33 stages x every terminal", "list computations in mc/seqops.py, written independently", "interaction of stages, source kinds and boundary counts"),
"P09": ("the same pipelines over counting sources; after each pull the consumption is compared; all interleavings of two iterators of one result", "a minimal one-element-at-a-time transducer", "laziness and re-iteration are invisible to tests that compare list(result)"),
"P10": ("every pipeline x suspension pattern of each source step x failure position x completion order, on a controlled event loop", "list computations with the failure position; source pull count", "suspension patterns and completion orders are schedules; tests run one"),
"P11": ("every typecode x array x operation x index/slice; all mutation/derivation histories with all live arrays re-read", "Python lists with the element type's conversion", "aliasing between derived arrays needs a later write; conversions differ per typecode"),
"P12": ("all programs of a small language of generator bodies, compiled to real generator functions and run under the builder; interleaved and recursive calls", "a direct interpreter of the same program (monadic desugaring)", "control-flow combinations (finally, loops, nested computations) are a program space, not a sample"),
"P13": ("as P12 for the seq builder", "a direct interpreter returning the list", "as P12; number of yields to 20000"),
"P14": ("as P12 with awaits, each immediate, loop-yielding or external; concurrent calls under every completion order; cancellation at every suspension", "the interpreter plus recorded effects", "schedules and cancellation points"),
"P15": ("all declarations with up to 4 cases x decorator options; all constructor argument sets; all pairs; all mutation sequences", "(declaration index, value) pairs", "immutability and exclusivity hold over all mutation paths and all declarations"),
"P16": ("curry arity x argument split x callable kind; all interleavings of two partial applications; all stage sequences", "the direct call", "hidden state shared between partial applications shows only when they interleave"),
"P17": ("all programs of 3 states x 8 actions, every start and fuel; async interleavings; stack depth measured", "undecorated recursion by a direct interpreter", "nested and interleaved calls are a history space"),
"P18": ("all grammars up to depth 2 x all inputs up to length 4 from every start position", "a PEG interpreter on the grammar term", "backtracking errors need a particular grammar and a particular prefix"),
"P19": ("all operation histories; all 2- and 3-thread programs under the controlled scheduler at every shared-state bytecode", "exactly-once/happens-before monitor over recorded call and return events; deadlock = no runnable thread", "needs a thread switch at one bytecode"),
"P20": ("as P19 for Disposable, AsyncDisposable, composites", "exactly-once monitor", "as P19"),
"P21": ("environment events (posts, timeouts, cancellations) at every point of the loop incl. between ready callbacks; posting threads at every bytecode", "a FIFO queue monitor; reply correlation by asker", "races of post with timeout/cancellation"),
"P22": ("every order of completions, awaits, cancellation points; cancelling thread at every bytecode; lifetime by gc", "one-outcome monitor", "as P21"),
"P23": ("all raise/return/catch combinations, nested catchers; all stage/outcome patterns", "direct model of except matching, bind chain and left fold", "order of effects and identity of first failure over all patterns"),
"P24": ("all nestings of types, all small values, all documents of a JSON universe against all types", "a recursive reference reader/writer; pydantic itself for leaf types", "the product of types, values and ill-typed documents"),
"P25": ("every pair of operations of 13 kinds of shared objects in two real threads under the controlled scheduler, at every shared-state bytecode (1 preemption) and in callbacks (3); every operation nested in every callback", "the result each operation has alone, from the models", "needs a thread switch between two particular bytecodes"),
"P26": ("all terms of builder operations up to depth 3, every law instance", "a direct model of the option, result and list monads; recorded calls", "the laws quantify over all values and functions; tests go through the decorators only"),
"P27": ("all types x all values, all pairs of casts, types changed in between", "isinstance (with the generic's origin) and identity", "falsy, hostile or lying values meet abstract, hooked and generic types"),
"P28": ("all values up to nesting 2 (3) x every way of copying x every operation; another process reading them", "a complete structural description of the value; identity for shared parts", "defects show for one kind of nesting, protocol or sharing only"),
"P29": ("all ordered pairs of the universe; all pairs, triples and arrangements of ordered values; all pairs of operations before comparing again", "a structural model of equality and a rank model of order", "unlawful comparisons show for mixed pairs that no test writes down"),
"P30": ("every operation with an exception injected at every point (fault injection through instruction events), then every operation again", "the result each operation has alone", "interrupts at a given bytecode cannot be produced by a test"),
}
TEXT_TOP = open(os.path.join(V, "tools", "design_top.md")).read()
TEXT_END = open(os.path.join(V, "tools", "design_end.md")).read()
o = [TEXT_TOP]
o.append("## Per property\n")
for p in props:
    c = consts(p["id"]); h = HOW[p["id"]]
    o.append(f"### {p['id']} {p['title']}\n\n"
             f"* Enumerated: {h[0]}.\n* Oracle: {h[1]}.\n* Bounds: {c['BOUNDS']}.\n* Assumptions: {'; '.join(c['ASSUMPTIONS'])}.\n"
             f"* Why tests cannot settle it: {h[2]}.\n")
o.append("## Findings\n\nRepaired (`fix:` commits) and recorded defects, as in known-findings.txt:\n")
for l in open(os.path.join(V, "known-findings.txt")):
    if l.strip() and not l.startswith("#"):
        o.append("* " + l.strip())
o.append("")
o.append(TEXT_END)
o.append("## Planted bugs and which checks catch them\n\nThe quick check of the property named in meta.json was run against each change "
         "(`tools/run_seeded.py`); the last column lists every check that reports it.\n\n| id | property | needs | caught by |\n|---|---|---|---|")
res = {}
f = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(f):
    res = json.load(open(f))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    o.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {', '.join(res.get(i, [])) or '(not run)'} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
