"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TV = "translation_validation"
MC = "model_checking"
PY = "python3-vt"

CHECKS = {}


def check(pid, cmd, technique, level, note):
    CHECKS[pid] = {"property": pid, "quick_cmd": f"VERIF_TIER=quick {PY} {cmd}",
                   "thorough_cmd": f"VERIF_TIER=thorough {PY} {cmd}",
                   "technique": technique, "level": level, "level_note": note}


SE = "bounded symbolic execution of the real Python code + Z3"
for pid, lang in (("P06", "SMT-LIB"), ("P07", "Rosette"), ("P08", "Python")):
    check(pid, f"checks/printers.py {pid}", SE, TV,
          f"Every expression shape up to depth 2 (3 thorough) over all node kinds is printed by the real code and the "
          f"{lang} text is interpreted symbolically; Z3 decides equality with the IR meaning for all variable and "
          "literal values (lists and matrix sides up to 2). Trusts the text interpreters in lib/.")

check("P10", "checks/rewrites.py P10", SE, MC,
      "The real simplify/rewrite/mapArgs/optimize passes run on every expression shape in bounds with symbolic literals and "
      "equality choices; Z3 decides equivalence (validity for the equality optimiser) over all variable values.")
check("P22", "checks/rewrites.py P22", SE, MC,
      "Real __eq__/__hash__/And/Or de-duplication over pairs and triples of shapes with symbolic literals; Z3 looks for equal "
      "expressions with different values.")

check("P11", "checks/objects.py", SE, MC,
      "Every typed-object operator (and every nesting of two, for every operand order and plain operand) is executed by the "
      "real code on symbolic operands; Z3 decides that the built expression has the operation's meaning and type, and cvc5 "
      "parses its SMT form.")
VCT = "real frontend run on programs + Z3 over uninterpreted postcondition/invariants vs. path-wise symbolic execution"
check("P01", "checks/pyfront.py P01", VCT, MC,
      "The real Python frontend builds the condition of ~1200 programs (every control skeleton up to 5 statements and "
      "hand-written list/set/tuple/call programs); for every path of the program (loops up to 3 head visits) Z3 decides "
      "that condition and not postcondition cannot hold, with postcondition and invariants uninterpreted.")
check("P02", "checks/pyfront.py P02", VCT, MC,
      "Same programs; the exact input/output relation and exact loop-head states (bounded unrolling) are substituted for "
      "postcondition and invariants and Z3 decides that each conjunct of the real condition is valid.")

LLT = "real LLVM frontend run on compiled programs + Z3 vs. path-wise symbolic execution of the same .ll"
check("P03", "checks/llvmfront.py P03", LLT, MC,
      "clang-14, opt-14 and the repository's pass compile ~700 C++ programs (control skeletons, goto graphs and hand-written "
      "list/vector/set/tuple programs); the real frontend builds each condition; for every path of the .ll (loops up to 2-3 "
      "head visits) Z3 decides that condition and not postcondition cannot hold, postcondition and invariants uninterpreted.")
check("P04", "checks/llvmfront.py P04", LLT, MC,
      "Same programs; the exact input/output relation and exact loop-head states (bounded unrolling) are substituted for "
      "postcondition and invariants and Z3 decides that each conjunct of the real condition is valid.")

check("P05", "checks/llvmfront.py P05",
      "real loop-report readers executed on reports with symbolic names and flags, real LoopInfo against path-wise symbolic execution + Z3", MC,
      "(a) Both readers of the loop report run on reports of up to 3 functions and 4 blocks (5 thorough) with every block's name symbolic (any "
      "text of up to 12 characters) and every combination of flags: what is read is what the report says. (b) For ~700 compiled functions "
      "(control skeletons, goto graphs of 3 and 4 blocks with labels such as latch1, hand-written) the loops and edges are the natural loops and "
      "edges of the code, and Z3 decides on every path that no iteration changes a variable that is not among the loop's modified ones.")
check("P21", "checks/passcheck.py P21",
      "the pass is built and run; the functions before and after it are executed symbolically and Z3 decides equal results", MC,
      "~1000 functions (control skeletons, goto graphs, short circuits, switches, and LLVM functions over every graph of up to 3 blocks whose phis record "
      "the path taken; 4 blocks thorough): on every path before the pass Z3 decides that the code after it returns the same for all "
      "arguments (loops up to 2-3 visits); every conditional branch has two blocks no other edge enters.")

LIBT = "symbolic interpretation of the shipped library text + Z3"
check("P13", "checks/libs.py P13", LIBT, MC,
      "Every axiom and recursive definition of the SMT libraries is read from the tree and evaluated over symbolic lists "
      "(length<=3, thorough 4), ragged matrices and maps; Z3 decides it. Plus cvc5/z3 consistency probes of the text.")
check("P14", "checks/libs.py P14", LIBT, MC,
      "Each primitive, as printed by the real printers, is evaluated by interpreting utils.rkt and list-axioms.smt on the "
      "same symbolic arguments; Z3 decides equality over the whole domain within the size bounds.")

check("P12", "checks/synthinput.py", "read-back of the real query text + Z3 forall/exists", MC,
      "The real to_rosette writes the synthesis query for variables of 16 types (and pairs, triples) at every list bound up to 3 "
      "(4 thorough); Z3 decides, per shape of values, that for all values (and all constants not under #:forall) some "
      "universally quantified constants give exactly those values without a Racket error.")

TEN = "real tensor definitions/axioms executed symbolically + Z3"
check("P18", "checks/tensor.py P18", TEN, MC,
      "Every tensor-language declaration (the real IR bodies, the Python text printed from them, and dsl.py) is executed on "
      "every well-shaped input within vector length 3, matrices 3x2, tensors 2x2x2 (all integer elements); Z3 decides it equals the "
      "operation its name states.")
check("P19", "checks/tensor.py P19", TEN, MC,
      "Every axiom handed to the verifier is evaluated over all integers and all indices for every shape in bounds, with the real "
      "definitions unrolled, arbitrary select functions and arbitrary out-of-range reads; Z3 decides it holds.")

check("P20", "checks/llmparse.py",
      "the real check_solution reads every answer of a grammar; Z3 decides that what it read and the Python text (interpreted symbolically) agree", TV,
      "~3200 answers (every production in every position of every other, all layouts, several functions and several answers per run, ite() "
      "rewriting; thorough: depth 3) are read by the real mypy-based reader in a scratch copy; Z3 decides value equality for all arguments "
      "(lists up to 2, matrices 2x2), the DSL functions being uninterpreted.")

check("P15", "checks/smtfile.py P15",
      "the real verify_synth_result/toSMT write the file for every call graph in a scenario family and every order; the file is read back and Z3 decides that its last "
      "assertion, under the definitions in it, is the negation of the condition", TV,
      "Every call-graph scenario (functions taking functions directly/indirectly/several levels, first-order chains, recursive, "
      "synthesised functions calling each other, tensor-library functions, axioms) in every declaration order: cvc5 accepts the file "
      "and Z3 shows the claim equals the negated condition for all integers and lists up to length 2 / matrices 2x2.")

check("P09", "checks/readback.py P09",
      "real printer and reader run on symbolic expressions and on symbolic solution files + Z3 against the Rosette/SyGuS text's meaning", TV,
      "Every expression shape a grammar can contain (depth bound) is printed by the real to_rosette and read by the real parser; whole solution "
      "files and SyGuS candidates with symbolic choices and layouts are read by the real synthesize(); Z3 decides that what was read has the "
      "meaning of the text for every argument.")
check("P16", "checks/synthloop.py P16",
      "real guess-and-verify loops executed with symbolic verifier exit status/output and symbolic synthesiser behaviour + Z3", MC,
      "Every path of the real Rosette and SyGuS loops within the bound on rounds, with the verifier's exit status and output symbolic: a return implies "
      "(Z3, strings) that the answer to the last file was unsat, that file defines exactly the returned candidates and claims the negated "
      "condition, and the rounds' assumptions exclude earlier candidates.")

check("P17", "checks/names.py P17",
      "real name-making code executed on histories of requests with symbolic names (Z3 strings)", MC,
      "Every history of up to 4 (5 thorough) requests to the tracker and to both frontends' drivers, every name in them symbolic; "
      "and both frontends run on programs whose arguments have symbolic names: Z3 (strings) decides that generated names are new, "
      "predicate parameters distinct, and variables of the condition declared once.")

NA = {}

if __name__ == "__main__":
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS]
    m = {"version": 1, "setup_cmd": f"{PY} lib/selftest.py",
         "checks": [CHECKS[p] for p in props if p in CHECKS], "not_applicable": na,
         "notes": "See DESIGN.md. No hooks in /repo: the checks import the working tree directly."}
    json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
    print(len(m["checks"]), "checks", len(na), "n/a")
