"""dev: rewrite sections 7 and 8 of DESIGN.md"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "contracts"))
d = open(V + "/DESIGN.md").read()
d = d[:d.index("## 7. Planted bugs")]
d += "## 7. Planted bugs\n" + subprocess.run([sys.executable, V + "/tools/seedtable.py"], capture_output=True, text=True).stdout
d += """
A replayed input means the harness re-ran the failing case on the compiled code; "obligation only" means the verifier rejected a named
obligation and the longer search found no input (C27's counter after 2^32 blocks cannot be reached by running it).

Behaviour-keeping edits were tried the same way (31 of them: helpers extracted, closures turned into loops and back, statements
reordered, names changed, `continue` for nested `if`, guards and clones moved, in the files of C02, C06, C11-C14, C16, C18-C20, C22-C27).
None raised an alarm with a replayed input. Where the extractor no longer recognises the new shape the function is reported
undecided and the bounded harness decides that run (exit 0); two such edits exposed brittle proofs and were fixed (positional names
instead of source names in C20's invariants; loop-end hints are now also placed before `continue`). Two edits (gcd's `while` as `loop`
with `return`; the AES rounds as an index loop from 1) still give an obligation-only alarm.

Contract strength is measured by `tools/mut.py`: it changes one operator, literal, condition or statement in every extracted body at
once (functions are verified one by one, so each fails by itself) and prints the functions that still verify. In every module tried
(all but C12, C20, C22, C26) the survivors were changes without effect: `> 0` against `>= 0` before a loop that runs zero times, an
initial value overwritten later, a trial division whose composite the rounds find anyway.

## 8. Not applicable
C28 (bootstrapped circuits fail with negligible probability): a probability bound over noise distributions is not a postcondition over
one call, and no installed deductive verifier reasons about distributions. What is provable per call is claimed instead: C18 (decryption
within the noise bound), C20/C22 (the exact error terms added), C21 (every gate tolerates a total error below q/16).
"""
open(V + "/DESIGN.md", "w").write(d)
