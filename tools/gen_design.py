#!/usr/bin/env python3
"""Write DESIGN.md: the hand-written text below, plus the rule list of every check (from evidence/) and the table of
seeded changes (from seeded/).  Run after the checks have been run on the unchanged tree."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Static verification of dargueta/binobj

Everything claimed here is decided by **static analysis of the source of `/repo/binobj`**: Python's `ast` only, nothing
of the repository is imported or executed, and no solver is handed any path.  `python3 -m sa CNN` (standard library
only) re-reads `/repo/binobj/**/*.py` on every run, re-analyses what the property needs, prints one line per violated or
undecided obligation (function, class, path condition, source line) and writes `evidence/CNN.json`.

* [1. The analyser](#1-the-analyser) – what is modelled, what is trusted
* [2. Properties](#2-properties) – per property: how it is decided, against which oracle, within which bounds
* [3. Not applicable](#3-not-applicable)
* [4. Defects found](#4-defects-found) and what was seen but deliberately not changed
* [5. Testing the checks](#5-testing-the-checks) – seeded changes, bug variants, behaviour-preserving variants
* [6. Limits](#6-limits)

## 1. The analyser

`sa/loader.py` parses every module, resolves imports, classes, method resolution order, properties, overloads and
re-exports into one program table.  `sa/terms.py` is the value domain: *provenance terms* – a value is described by where
it came from (parameter, attribute of a term, result of a call event, element of a loop, copy of a term, new object,
constant, linear combination) – and the facts known on a path (equal / not equal to a constant or sentinel, class and
membership atoms, intervals over linear combinations).  `sa/engine.py` is a path-sensitive abstract interpreter over the
syntax tree:

* **Paths.**  Every branch forks unless the facts decide it.  Calls into the library are inlined (virtual calls are
  resolved for the concrete class being analysed); a fixed vocabulary of operations – loading or dumping a field or
  struct, computing a size or a value, validating – is kept as an *event* where it is called on another object, so every
  rule is stated about events and terms, never about the spelling of the code.
* **Loops.**  One generic iteration is analysed for an arbitrary earlier state: variables and containers written in the
  loop are havocked into loop-carried terms, the iteration is walked from there ("loop-back paths" give the per-iteration
  transfer function), and the code after the loop continues from the havocked state.  Rules about loops are therefore
  inductive (entry + one iteration + exit), not unrollings.
* **Exceptions.**  `raise`, `try/except/else/finally`, `with`, re-raises and `from` are followed; opaque calls can be
  made to raise at every site (`conv_raises`, `fork_all`), which is how "restored on every exit" and "nothing is
  swallowed" are decided.
* **Heap.**  Allocation, copy, attribute and item writes, container growth, version counters for mutated containers,
  generators (lazily inlined into the loop that consumes them), closures, comprehensions, `functools.partial`,
  properties, `__getattr__`-free attribute lookup on instances and classes.
* **Forms.**  `sa/desugar.py` turns loops written out by hand (`next()` with a sentinel or `StopIteration`, index loops) back
  into `for` loops before analysis, so a rule sees one form; anything that does not fit exactly stays as written.
* **Private helpers.**  A function that only other library functions call is not judged on its own: its callers' entry
  points (`Program.roots`) are analysed with it inlined, so extracting a helper moves no obligation.
* **Hypothetical inputs.**  Where a property quantifies over something the current classes use only once (the list of
  defaultable options of a field type), the engine runs the function with assumed values (`assume=`) – e.g. two options,
  so that code which is right only for a single one is found.
* **Stream positions** (`rules/common.py: Pos`): symbolic positions relative to the entry position, through
  `tell/seek/read`.

Three answers exist for an obligation: *proved*, *violated* (exit 1, `VIOLATION` line, replay file with the path), or
*undecided* – a construct outside the model.  An undecided obligation is reported in the evidence and never turned into an
alarm; on the current tree no obligation is undecided.  If a public anchor (class or method named in a property) has vanished the check
exits 3 rather than claim anything.

Trusted: the engine's model of Python and of the few standard-library operations the package uses (`bytes`, `struct`,
`int.to_bytes`, codecs, `io.BytesIO`, `dict`/`list` methods), that user callbacks (validators, predicates, deciders, compute
functions) may do anything except reach into the library's private state, that streams implement `read/seek/tell/write`
with their documented meaning, and no monkeypatching.  "13 776 paths" style numbers in the evidence count the paths of all
entry functions for all 26 concrete field classes.

Why this reaches what tests cannot: each rule is decided on *every* path of the entry function for every built-in field
class and an arbitrary loop iteration, i.e. for all inputs, sibling values, option combinations and callback outcomes
that lead to that path, instead of the handful of structs the test suite builds.

Cost: a check takes 1–20 s on one core (C17, C18, C21, C28 are the longest); memory below 1 GB.  The `quick` and `thorough`
commands run the same rules; `thorough` inlines deeper (24 instead of 14 calls) and raises the path and state budgets fivefold, which
matters only for modified code – on the current tree both explore everything.

## 2. Properties

"Oracle" is what the rule compares the code with; "bounds" what the answer is relative to.
"""

NOTES = {
"C01": ("Dominance/typestate: for each of `Field.from_stream`, `Field.to_stream`, `Field.__set__` (per field class) every path that returns, writes or stores must contain a *complete* loop over `self.validators` whose body calls each element with exactly the term that is returned, written or stored, before the effect. The registry rule follows validator methods from the class body to `field_validators`/`struct_validators`, including inheritance.",
        "the identity of terms (the validated term must be the very term used), the field list of the struct",
        "validators are opaque; a validator that mutates the value in place is outside the statement. `_get_null_repr` dumps the declared null value without validating it – that is configuration, not a value.",
        "a test checks one validator on one field type; the rule covers the null path, the default path and every subclass override."),
"C02": ("Path facts at every return of `from_stream`: value is None, or was compared equal to `self.const`, or const is UNDEFINED. Setter and `computes` by dominance; a who-writes scan for `const`/`_compute_fn`.",
        "the equality facts on the path", "`const` is not enforced when *dumping* an explicitly supplied other value through `field.to_bytes(x)`: the library never did, the statement does not claim it.", "the nullable constant and every override of from_stream are covered."),
"C03": ("Event counting of `present(...)` per path with its three arguments; the 'no' branch must contain no stream event and no validator; in struct dump loops a field event occurs iff its computed value is not NOT_PRESENT.", "the branch facts on the predicate's result", "predicates are opaque and may return anything truthy.", "all field classes, both whole and partial dumps; absent + value set + validators is a combination no test has."),
"C04": ("Classification of every byte term written for None (`null_repr_kind`: the bytes given, the dump of the null value, zeros of the expected size) and of every byte term compared while loading; stream positions show that exactly `len(marker)` bytes are consumed on a match, none otherwise.", "the same classification on both sides, so loading and dumping cannot drift apart", "the null value is rendered with `context=None` (see C09).", "covers sizes given by sibling fields, DEFAULT with unknown sizes, and the exception path."),
"C05": ("Single-write typestate on the caller's stream in `to_stream` + entailment of `len(written) == declared size` from path facts; `_add_padding`, `Bytes` and `String` dumpers separately.", "linear facts over lengths", "third-party subclasses' `_do_dump` are opaque, but they only get a scratch buffer.", "every field class × (constant size, referenced size) × (short, equal, long)."),
"C06": ("Inventory of every stream read reachable from loading code; each must be an exact read (count known ≥ 0 and `len(result) ≥ count` known on every using path), a look-ahead whose bytes are only compared, or the one-byte iterator.", "linear facts over read lengths", "a stream whose `read(n)` returns more than n bytes is not considered.", "finds reads added anywhere later, in any class."),
"C07": ("For `from_bytes` of fields and structs: return paths must entail `exact` false or position ≥ length; raise paths must entail the opposite; the result term is the loaded one.", "symbolic stream position against the length of the given bytes", "–", "off-by-one remainders (1 byte left) were the original defect."),
"C08": ("`Pos` on every exit of `peek_bytes`, `Array.should_halt`, `Struct.get_field`, with an exception forked at every opaque call; `partial_load`'s handler must seek to the `tell()` taken before the field that failed.", "symbolic positions", "a stream that cannot seek is outside the statement.", "fault at every call point, which tests cannot inject systematically."),
"C09": ("Taint-style rule: in every function with a `context` parameter, every library call that accepts a context must receive that very term; the context position of every user callback too.", "parameter positions of the resolved callee", "null-marker rendering is excepted (statement).", "any new call site is checked automatically."),
"C10": ("The sibling mapping is followed as a term through all field operations, size computations and callbacks; struct loops must store each loaded value in it before the next read; dump loops use one mapping built from all values.", "term identity plus the loop-carried contents of the mapping", "one recorded finding (`get_field` on a fixed-offset field).", "nested arrays/unions/predicates at any depth go through the same call sites."),
"C11": ("Per-iteration rules on the four struct loops (load, dump, partial load, partial dump) plus the loop that fills `components`.", "one generic iteration, inductive", "–", "any number of fields, any last field."),
"C12": ("Information-flow: which branches depend on `discard`; removal only after validation and only of fields known to be flagged.", "the flag's facts at each removal", "–", "partial load, nested to_dict and dumping together."),
"C13": ("May-raise sets of conversions (struct, int, codecs, UUID, datetime, integer codecs) against the enclosing handlers; handler exits must re-raise or be one of the documented exceptions; DeserializationErrors get their field.", "a table of what each standard conversion can raise", "errors raised by user callbacks are theirs.", "all raise sites forked, incl. OverflowError/UnicodeError variants no test triggers."),
"C14": ("Acceptance sets: run each constructor with the option an unknown value and collect what the returning paths established; compare with the members the library declares; each member needs its own load and dump path.", "enum members and dict keys read from the source", "`Integer(endian=...)` and `Timestamp(endian=...)` are only checked when used (statement limited to float byte order).", "adding an enum member without implementation is found."),
"C15": ("Cross-check of every format parameter at decode and encode sites against the same attribute and of that attribute against the constructor's argument.", "provenance of the parameter terms", "–", "26 classes × both directions; asymmetries are invisible to tests on the host's own byte order."),
"C16": ("The membership test must dominate every effect of name-based access.", "path facts", "–", "all names, including ones that are attributes but not fields."),
"C17": ("Ownership: everything written while a class is being defined (from_class, dataclass, __init_subclass__, binding) must belong to the new class.", "abstract ownership of containers and fields (parent / own / fresh)", "–", "sharing bugs only show when two subclasses interact."),
"C18": ("Loop-carried counters in class building (index +1; offset + size or None), plus position of the direct read in `get_field`.", "transfer function of one iteration", "–", "inheritance, absent and variable-size fields in any combination."),
"C19": ("Each overrideable attribute write while binding must be guarded by 'not explicitly given', ranked qualified before unqualified.", "membership facts guarding the write", "–", "–"),
"C20": ("Value source on every path of `compute_value_for_dump`, `__get__`, `to_stream` against the facts excluding the higher-ranked sources.", "precedence order of the statement", "passing UNDEFINED explicitly counts as not set.", "falsy values, None, factories and constants in combination."),
"C21": ("Effect analysis: every write made by loading/dumping/inspecting must hit an object allocated on that path; no memoising decorator; no one-shot iterators in configuration.", "allocation provenance", "user callbacks are opaque.", "statefulness appears only across operations."),
"C22": ("Linear facts: on returning paths number of elements written == count; loop-carried counters resolved inductively; halting predicate equivalence.", "interval/linear facts", "one extra element may have been pulled from a one-shot iterable before the error.", "all counts incl. 0 and negative, sized and unsized data."),
"C23": ("Identity of receiver, arguments and result of the delegated call.", "term identity", "a struct *instance* given to a nested field is dumped with its own class (statement says its struct's full dump).", "–"),
"C24": ("Known-bits/bit-slice domain (`sa/rules/c24.py`): each stored byte is described as which bits of the original number it holds, the loop count as a ceil-division of the bit length, checked exactly for each residue modulo 7.", "the format's definition", "minimality of signed LEB128 is relative to bit length + sign (so −2^(7k−1) may use one byte more).", "all integers of all lengths, not samples."),
"C25": ("Alias tracking of `init_kwargs`: only deep copies escape; every iteration still loads; stores only under missing names.", "alias classes", "–", "mutable override values, later fields depending on overridden ones."),
"C26": ("Loop-carried accumulation of decoded characters; the terminator test; one-byte reads with interval facts on the limit.", "character provenance", "stateful encodings UTF-7/punycode/idna excluded in the statement.", "multi-byte encodings and every limit."),
"C27": ("Size accumulators of `__len__` and `get_size` by case analysis of each contribution, compared with what dumping writes.", "the writing rules of C03–C05", "null markers as long as their field at class level (statement).", "–"),
"C28": ("Both class-building procedures are run and compared with one common specification of what must be bound, registered and rejected.", "the specification in `sa/rules/c28.py`", "class-attribute defaults for field-*instance* annotations are not claimed.", "Optional/`X | None`/Annotated in combination with inheritance."),
"C29": ("Provenance of every yielded name, compared key/value, converted item, with the facts that decide them; lengths of mapping proxies against the names they yield.", "the defined-ness facts", "`list(struct)` calls `__len__` (CPython) and may raise; structs whose nested structs miss required values still raise when compared.", "–"),
}

NA = {
"C30": "whole round-trip equality depends on run-time values (numeric ranges, codecs, user callbacks); its structural parts are claimed as C04, C05, C11, C15, C22–C24, C26.",
"C31": "numeric inversion quantifies over integer values and arithmetic no sound structural rule decides; the framing is claimed as C24, shared parameters as C15.",
"C32": "floating point and time-zone rules of `datetime` at run time (the float path is known to lose precision far from the epoch).",
"C33": "termination depends on user-supplied halt checks and on zero-size elements (an unbounded array of `Bytes(size=0)` really does not terminate).",
}

SEEN = """### Seen, judged and not changed

* C10 (recorded as KNOWN-FINDING): `Struct.get_field` reads a fixed-offset field directly with an empty sibling mapping, so a
  field whose size refers to an earlier field raises. A repair changes what get_field reads for every such field (needs a
  design decision), so it is recorded, not repaired.
* `const` is not enforced when dumping a foreign value; the declared null value is dumped with `context=None`; an explicit
  `UNDEFINED` counts as unset; a sibling count of None on dump means "no count"; `UUID4`'s EOF error reports the offset after
  the short read; `Array` with an optional component; `StringZ` with size and padding on load; shared `[]` for inherited
  validator lists of the same class; `Annotated[Optional[int], UInt8]` is not nullable; `Timestamp` truncates through floats;
  `memoryview` counts as a sequence in `recursive_to_dicts`; `in` on a struct's mapping proxy may raise
  MissingRequiredValueError. Each of these is either documented behaviour or outside the statements, which were worded
  accordingly (no check is silenced for them).
* False alarms met while building were repaired in the rule or engine (never listed as findings): equivalents such as `int(b)`
  vs comparison, `list(d)`/`d.keys()` iteration, guards with inverted branches, helpers that move a test into another
  function, checks performed once before a loop, names stored before binding.
"""

TEST = """## 5. Testing the checks

Three independent sets, none of which a check reads:

* `seeded/` – changes in the required format, built and verified by `tools/mkseed.py` (applies to HEAD, builds, keeps the
  existing tests green, demonstration fails with it and passes without, and differs from lines the fix commits added).
* `tools/variants/cNN.py` – bug variants written from the statement of each property (run with `tools/variants.py`; `-t` also runs
  the repository's tests on them).
* `tools/variants/g_*.py` and the `same` entries – behaviour-preserving refactorings (helpers extracted, loops rewritten,
  statements reordered, conditions inverted) of every module; *all* checks are run on each and must stay quiet.
* `tools/autorefactor.py` – some forty mechanical transformations (helper extraction of several kinds, loop forms, inverted and
  split conditions, temporaries, renaming, no-op statements), each applied to the whole package at once and in pairs; *all*
  checks are run on the result and must stay quiet.

{variants}

### Seeded changes and the checks that catch them

| change | property | caught by | needs |
|---|---|---|---|
{seeds}
"""

LIMITS = """## 6. Limits

* Rules hold for the library's own classes. A user's subclass overriding `_do_load`/`_do_dump`/`from_stream` is outside.
* Numeric content (does 0x7F decode to 127?), floating point, text codecs and time zones are not analysed – only who converts
  what with which parameters. C24 is the exception: its bit-slice domain is exact for the four integer codecs.
* Paths are enumerated, so code that multiplies independent branches can exceed the path budget; the obligation is then
  undecided and reported as such.
* A refactoring that moves logic into constructs the engine does not model (metaclass tricks, `exec`, dynamic attribute
  names computed at run time, reflection over closures) gives undecided obligations, not alarms.
* No hooks were added to /repo; the only commits there are `fix:` commits.
"""


def main():
    out = [HEAD]
    props = {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(line)
        props[d["id"]] = d
    for pid in sorted(NOTES):
        how, oracle, bounds, beyond = NOTES[pid]
        out.append(f"### {pid} – {props[pid]['title']}\n\n{how}\n")
        ev = os.path.join(HERE, "evidence", pid + ".json")
        if os.path.exists(ev):
            c = json.load(open(ev))["coverage"]
            for k, v in sorted(c["rules"].items()):
                out.append(f"* **{k}** – {v['text']}")
            out.append(f"\n*Scope on the current tree:* {c['obligations']} obligations over {c['n_functions']} functions.")
        out.append(f"*Oracle:* {oracle}. *Bounds:* {bounds.rstrip('.')}. *Beyond tests:* {beyond.rstrip('.')}.\n")
    out.append("## 3. Not applicable\n")
    for k, v in NA.items():
        out.append(f"* **{k}** ({props[k]['title']}): {v}")
    out.append("\n## 4. Defects found\n\nAll were found by a check (or while writing its rule), confirmed by running the real code, and repaired "
               "by one `fix:` commit each in /repo, except the one listed as a finding. `known_findings.txt` is the machine-read list.\n")
    out.append("| property | status | what failed |\n|---|---|---|")
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("fixed:"):
            _, rest = line.split(":", 1)
            a = rest.strip().split(None, 2)
            out.append(f"| {a[0].split('=')[1]} | fixed in `{a[1]}` | {a[2].strip().replace('|', chr(92) + '|')} |")
        elif line.startswith("finding:"):
            a = line.split("::", 1)
            out.append(f"| {a[0].split('property=')[1].split()[0]} | recorded | {a[1].strip()} |")
    out.append("\n" + SEEN)
    rows = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d.get('caught_by', d['property'])} | {d['needs'].replace('|', '/')} |")
    vt = os.path.join(HERE, "tools", "variants", "RESULTS.md")
    out.append(TEST.format(variants=open(vt).read() if os.path.exists(vt) else "", seeds="\n".join(rows)))
    out.append(LIMITS)
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")


main()
