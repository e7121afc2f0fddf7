s = r'''# How static analysis decides the properties of MACIS here

Nothing in /repo is ever executed by a check.  Every check parses the current tree,
builds abstract summaries, and reports a construct (file, line, function, component).

## Front end
* `tool/astdump.cpp` (libTooling, clang 18; built by `setup.sh`, and again by a check
  if missing) parses the translation units in `drivers/` — which instantiate every
  template of the libraries for the element / index / bit widths in use — plus the
  `src/macis` sources, and dumps the *resolved, instantiated* program: declarations,
  types, overload-resolved callees, implicit conversions, constants.
* Libraries that are not installed (mdspan, bitset hashing, ...) are replaced by
  minimal declarations in `stubs/`; `cfg/` is the configuration header.
* A front end error, a missing anchor or zero analysed instances is an error exit
  (neither pass nor violation).
* A dump is cached under `build/cache/<hash of the sources>`; a changed source is always parsed again.

## A. Behaviour summaries and conformity (C01–C30)
`lib/sym.py`, `models.py`, `loops.py`, `norm.py` compute for each function a summary
by structural abstract interpretation (one walk over the tree; branches are merged
into guarded values, loops are summarised into index-range families, folds, partial
sums, monotone filters, first-hits, prefix scans; no path enumeration, no solver).
A summary says: which element of which object receives which value, under which
guard and over which index range; which effectful calls (MPI, BLAS, I/O, user
callbacks) are made with which arguments, and in which dependence order; what is
thrown under which condition; what is returned.
Names, statement order, helper boundaries (helpers are inlined), loop forms,
temporaries, algebraic rearrangements and std-algorithm vs. loop are not part of it.

`lib/refcmp.py` compares the summary with the *confirmed* summary of the same function.
The confirmed summaries are those of `reference/`: the sources at the commit that was
read and reviewed against the properties, including the `fix:` commits.  Reviewing them is
how the "fixed defects" below were found; the summaries are compared as *algebraic
objects*, not text.  Equality is decided by normal form and, when normal forms differ, by
an identity test in the style of random-interpretation value numbering (Gulwani/Necula,
POPL'04): both summaries are mapped into 24 small finite interpretations of
their free symbols (sizes, element values, opaque calls), and the *pictures* — final
contents of the written object, sequence of ordered calls — are compared.  These are evaluations
of summaries (terms), never of the program; seeds are fixed, so runs repeat.

### What an interpretation respects (`lib/semeq.py`)
* sizes and extents are not negative, class invariants hold (`nnz_` is the length of the index and
  value arrays, `rowptr_` has `m_+1` entries, ...), row/column pointers are monotone, bit strings have
  their width, arrays read both as a matrix and as a sequence have one content (`linear`);
* preconditions every caller establishes (`preconditions`, `CAPACITY`, `DESCENDING` in refcmp) and "the
  function did not throw" (first exit wins) restrict the interpretations;
* large constants (INT_MAX chunking) are scaled down to 2–3 so that the chunk logic is exercised;
* guards of the differing entries steer the choice of interpretations, so that entries behind rare
  conditions are reached; trials in which no differing entry has an effect are not counted;
* summaries that do not terminate in an interpretation on one side only are different (`Endless`).
* Reads commute with each other; order is compared where effects depend on each other (same
  communicator, same stream, same object); at a call that is not followed a snapshot of what it can see is compared.

### Verdicts and trust
`ok` / `differ` (→ violation) / `inexact` / `undecided` (→ evidence only, never an alarm).
A difference is reported only when it can be trusted.  `lib/astdiff.py` classifies how the function
changed as a tree: `same`, `expr`, `one` (one statement or guard added/removed), `move`, `restr`.
For a restructured function, a component containing unresolved terms (`WEAK`: loop-carried values that
were not summarised, opaque conditions, ...), or a function with other undecided parts, is undecided.
For a local edit the same unresolved term on both sides stands for the same value (it is named by what it is computed
from), so a difference is trusted unless the edit introduced new unresolved terms.

Which functions belong to a property: `rules/table.py` gives the anchors; the analysed set
is their closure over resolved calls inside the repository, since a property of a function
is broken by whatever it calls.  New helper functions are inlined; a function that disappears is compared through its callers.

What it reaches that the tests cannot: the summary quantifies over all inputs, leading
dimensions, index bases, process counts and element counts.
What it does not decide: whether the reviewed behaviour is *numerically* accurate,
convergence, and anything in components reported as undecided (the evidence file counts and lists them).

| id | anchors (closure over calls) |
|----|---------|
'''
import sys
sys.path[:0]=['/verif']
from rules.table import ROOTS
for p,(t,r) in sorted(ROOTS.items()):
    fs=sorted({a.replace('\\','').replace('.*','').strip('^$') for a,_ in r})
    s+=f'| {p} {t} | '+', '.join(fs)[:300]+' |\n'
s+=r'''
## B. Cross-cutting rules (absolute: they need no reference)
'''
import ast,rules
mods={}
for p,(ms,t) in rules.TABLE.items():
    for m in ms:
        if m!='conform': mods.setdefault(m,[]).append((p,t))
for m in sorted(mods,key=lambda m:max(mods[m])):
    d=ast.get_docstring(ast.parse(open(f'/verif/rules/{m}.py').read()))
    pid,t=max(mods[m]) 
    s+=f'### {", ".join(sorted(p for p,_ in mods[m]))} {t} (`rules/{m}.py`)\n{d}\n\n'
s+=open('/verif/dev/design_tail.md').read()
import glob,json,os
s+='''## F. Planted bugs (`seeded/`)
Each is caught by the check of its own property (conformity unless the rule of section B is named).

| id | property | what it needs to show |
|----|----|----|
'''
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d))
    s+=f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |\n"
s+='''
## G. Defects of MACIS found and repaired
Each was found while stating the reviewed behaviour or by a rule of section B, shown on the real code, and fixed in its own commit.

'''
for x in json.load(open('/verif/known_findings.json'))['fixed']:
    s+='* '+x+'\n'
s+='''
## H. False alarms that were corrected
Alarms that refactorings raised during development were always treated as faults of the machinery, never recorded as findings.
Corrected classes: buffers filled in another order or by another loop nest (linear addressing), vectors replaced instead of
resized, swapped containers, order of commuting reads, INT_MAX chunk loops unrolled differently, choices between objects,
renamed or reordered parameters of internal helpers, large index ranges evaluated by samples (a full range is now evaluated at a smaller size).
'''
open('/verif/DESIGN.md','w').write(s)
