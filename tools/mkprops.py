"""Writes /verif/properties.jsonl."""
import json
import os

P = []


def prop(id, title, statement, over, text, tests, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a})


prop("P01", "A proved Python program really satisfies its specification",
     "Whenever the verification condition generated from an analysed Python function holds for some "
     "postcondition and some loop invariants, every terminating execution of the function from any "
     "argument values satisfies that postcondition. No branch, loop, else part, early return, assignment or list "
     "update of the program is dropped from the condition.",
     ["programs", "inputs"],
     "for every program in the supported statement language, every argument value, every interpretation "
     "of the postcondition and of the invariants",
     "The end-to-end tests need Racket and pick one program and one synthesised answer each; a dropped "
     "path only shows for an answer that happens to be wrong there.",
     ["metalift/frontend/python.py", "metalift/frontend/utils.py", "metalift/vc_util.py"],
     [("statement visitor building the condition", "metalift/frontend/python.py VCVisitor"),
      ("driver that exposes the analysed function", "metalift/frontend/python.py Driver, MetaliftFunc")],
     observe=["Driver.asserts / Driver.postconditions after calling the analysed function"])
prop("P02", "The condition for a Python program accepts its exact specification",
     "If the postcondition is exactly the program's input/output relation and every loop invariant is "
     "exactly the set of states that reach the head of that loop, the verification condition generated "
     "from the Python program is valid. The condition never demands more than the program's own behaviour. "
     "Every program of the supported language (assignments, conditionals, loops and early returns over integers, "
     "booleans, lists and sets, variables having a value before the branch that changes them) gets a condition.",
     ["programs", "inputs"],
     "for every supported program that keeps its argument values, every input up to the loop bound",
     "The tests only see whether synthesis eventually found something, with Racket, on hand-picked programs.",
     ["metalift/frontend/python.py", "metalift/vc_util.py"],
     [("invariant initiation, preservation and exit", "metalift/frontend/python.py visit_while_stmt"),
      ("branch merge", "metalift/frontend/python.py visit_if_stmt")])
prop("P03", "A proved C/C++ (LLVM) program really satisfies its specification",
     "Whenever the verification condition generated from a compiled function's LLVM control-flow graph "
     "holds for some postcondition and some loop invariants, every terminating execution of that function "
     "from any argument values satisfies the postcondition. This covers branches, loops, nested and early "
     "exits, integer operations and comparisons, and the list, set and tuple primitives.",
     ["programs", "inputs"],
     "for every supported control-flow graph, every argument value, every interpretation of postcondition "
     "and invariants",
     "The LLVM drivers need Racket and sample one program each.",
     ["metalift/frontend/llvm.py", "metalift/frontend/utils.py", "metalift/vc_util.py"],
     [("block-by-block predicate computation", "metalift/frontend/llvm.py VCVisitor, Driver")])
prop("P04", "The condition for a C/C++ program accepts its exact specification",
     "If the postcondition is exactly the compiled function's input/output relation and every loop "
     "invariant is exactly the set of states that reach that loop's head, the verification condition "
     "generated from the LLVM code is valid. Every function over the supported instructions whose cycles are natural loops gets a condition.",
     ["programs", "inputs"],
     "for every supported control-flow graph, every input up to the loop bound",
     "Same as P03: nothing compares the condition with the program.",
     ["metalift/frontend/llvm.py", "metalift/vc_util.py"],
     [("invariant initiation and preservation at loop heads and latches", "metalift/frontend/llvm.py")])
prop("P05", "Loop discovery attaches each invariant to the right loop",
     "For every function, the loops read from the compiler's loop report are exactly the natural loops of "
     "its control-flow graph, with the right header, body, exits and latches, and with exactly the "
     "variables the loop can change.",
     ["programs"],
     "for every control-flow graph the compiler reports loops for",
     "Only the two or three loop shapes of the driver programs are ever read.",
     ["metalift/analysis.py", "metalift/frontend/llvm.py"],
     [("loop report parsing", "metalift/analysis.py parse_loops"),
      ("modified-variable discovery", "metalift/frontend/llvm.py, metalift/analysis.py")])
prop("P06", "Printing to SMT-LIB preserves the meaning of every expression",
     "The SMT-LIB text printed for an expression or function declaration is accepted by a standard solver "
     "together with the shipped libraries, and denotes the same value as the expression for every value of "
     "its variables and literals.",
     ["inputs", "programs"],
     "for every well-typed expression over the supported operators, every value of its variables and literals",
     "Unit tests compare a few printed strings; none of them evaluates the text.",
     ["metalift/ir.py", "metalift/utils/list-axioms.smt", "metalift/utils/tuples.smt"],
     [("per-node SMT printing", "metalift/ir.py toSMT")])
prop("P07", "Printing to Rosette preserves the meaning of every expression",
     "The Rosette text printed for an expression or function declaration evaluates, with the shipped "
     "Rosette library, to the value of the expression for every value of its variables and literals on "
     "which the expression is defined, and raises no error there.",
     ["inputs", "programs"],
     "for every well-typed expression over the supported operators, every value of its variables and literals",
     "Rosette is not exercised by unit tests, and the drivers never compare values.",
     ["metalift/ir.py", "metalift/utils/utils.rkt"],
     [("per-node Rosette printing", "metalift/ir.py to_rosette"), ("list/set library", "metalift/utils/utils.rkt")])
prop("P08", "Printing to Python preserves the meaning of every expression",
     "The Python text printed for an expression or function declaration is syntactically valid and "
     "evaluates to the value of the expression for every value of its variables and literals on which the "
     "expression is defined.",
     ["inputs", "programs"],
     "for every well-typed expression over the operators that have a Python form, every value of variables and literals",
     "No test evaluates the printed Python.",
     ["metalift/ir.py"],
     [("per-node Python printing", "metalift/ir.py to_python")])
prop("P09", "Reading back a Rosette solution yields the expression Rosette found",
     "Parsing the Rosette text of an expression gives back an expression with the same meaning and type; a "
     "function body returned by the synthesiser is read back as that body, with each grammar hole replaced "
     "by the alternative the synthesiser chose for it.",
     ["inputs", "programs"],
     "for every well-typed expression the synthesiser can return, every value of its variables",
     "Parse-back is only exercised by end-to-end runs that need Racket.",
     ["metalift/synthesize_rosette.py"],
     [("solution parser", "metalift/synthesize_rosette.py to_expr, parse_output")])
prop("P10", "Rewriting and simplifying expressions never changes their meaning",
     "Every simplification, substitution, traversal and pruning step applied to expressions, conditions "
     "and declarations gives a result that is equivalent to its input (for conditions: valid exactly when "
     "the input is). Substituting a variable changes exactly the free occurrences of that variable.",
     ["inputs", "programs"],
     "for every well-typed expression, substitution and value of its variables",
     "Unit tests cover none of the simplifiers; the property quantifies over all expressions.",
     ["metalift/ir.py", "metalift/synthesis_common.py", "metalift/vc_util.py", "metalift/rosette_translator.py"],
     [("simplify, rewrite, map_args, replace", "metalift/ir.py Expr"),
      ("useless-equality optimiser", "metalift/synthesis_common.py")])
prop("P11", "Operators on typed objects build expressions with the intended meaning",
     "Using an arithmetic, comparison, boolean, indexing, slicing, list, matrix, set or tuple operation on "
     "typed objects builds an expression of the right type whose value is what that operation means on the "
     "operand values, for both operand orders and with plain Python operands.",
     ["inputs"],
     "for every operator, operand order, and operand value",
     "The tutorial tests build a handful of expressions and do not evaluate them.",
     ["metalift/ir.py"],
     [("operator overloads", "metalift/ir.py Bool, Int, List, Matrix, Tensor3D, Set, Tuple")])
prop("P12", "The synthesiser's symbolic inputs cover every value within the bound",
     "The declarations generated for bounded synthesis let each variable take every value of its type up "
     "to the declared bound: every list of every length up to the bound, every set, tuple and nesting of "
     "them, with distinct variables independent of one another.",
     ["inputs", "configurations"],
     "for every supported type and bound, every value of that type within the bound",
     "A missing value only makes bounded checking weaker; nothing fails visibly.",
     ["metalift/rosette_translator.py", "metalift/utils/utils.rkt", "metalift/ir.py"],
     [("symbolic variable generation", "metalift/rosette_translator.py genVar")])
prop("P13", "The SMT library's axioms are true of lists, matrices, maps and integers",
     "Every axiom and recursive definition in the shipped SMT libraries holds of the mathematical lists, "
     "lists of lists and integer functions they name, so assuming them can never prove a false claim.",
     ["inputs"],
     "for every list, element, index and integer",
     "An axiom file is never tested; an inconsistent axiom silently proves everything.",
     ["metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt", "metalift/utils/tuples.smt",
      "metalift/utils/map-axioms.smt"],
     [("axioms and recursive definitions", "metalift/utils/*.smt")])
prop("P14", "Rosette and SMT libraries agree on every primitive",
     "Each list, matrix, set, tuple and integer primitive has the same value in the Rosette library used to "
     "search and in the SMT library used to verify, on every argument for which the primitive is defined.",
     ["inputs"],
     "for every primitive and every argument in its domain",
     "The two libraries are written in two languages that no test runs side by side.",
     ["metalift/utils/utils.rkt", "metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt"],
     [("Rosette primitives", "metalift/utils/utils.rkt"), ("SMT primitives", "metalift/utils/list-axioms.smt")])
prop("P15", "The emitted SMT query states exactly the claim to verify",
     "The SMT file written for verification is well formed, declares every symbol before its use, contains "
     "every target-language and synthesised function with its own meaning (also when functions take "
     "functions as arguments), and is unsatisfiable exactly when the verification condition is valid.",
     ["inputs", "programs"],
     "for every set of function declarations, call graph, variable order and condition",
     "Only end-to-end runs write this file, and none of them checks what it says.",
     ["metalift/smt_util.py", "metalift/ir.py"],
     [("file emission and ordering", "metalift/smt_util.py toSMT"),
      ("higher-order specialisation", "metalift/smt_util.py")])
prop("P16", "Only candidates the verifier proved are returned",
     "A synthesised candidate is returned as a solution only if the verifier reported the negated "
     "verification condition of exactly that candidate unsatisfiable; an unknown, timed-out, failing or "
     "satisfiable answer never counts, and a rejected candidate is not proposed again.",
     ["histories", "fault_sequences"],
     "for every sequence of synthesiser and verifier answers, including failures",
     "The tests never make the verifier disagree with the synthesiser.",
     ["metalift/synthesize_rosette.py", "metalift/synthesize_cvc5.py", "metalift/synthesis_common.py",
      "llmlift_scripts/synthesis.py"],
     [("guess-and-verify loop", "metalift/synthesize_rosette.py synthesize"),
      ("verdict handling", "metalift/synthesis_common.py verify_synth_result")])
prop("P17", "Generated names never collide",
     "A variable a program asks for by name has that name; every variable the analysis generates itself (grouped "
     "variables, fresh values of loops and calls) gets a name that no variable in use before it has and is listed "
     "with the type it was created with, whatever names the program's variables have and whatever was requested "
     "before. The parameters of every predicate to synthesize are distinct, and every variable of the verification "
     "condition is declared exactly once, with its type.",
     ["histories", "inputs"],
     "for every sequence of variable and group requests",
     "Collisions need particular name sequences that no test uses.",
     ["metalift/analysis.py", "metalift/frontend/python.py", "metalift/frontend/llvm.py", "metalift/frontend/utils.py"],
     [("variable tracker", "metalift/analysis.py VariableTracker, VariableGroup"),
      ("values of calls and loops", "metalift/frontend/python.py Driver.fresh_object, metalift/frontend/llvm.py Driver")])
prop("P18", "The tensor language definitions compute the tensor operations they name",
     "Each tensor-language operation (elementwise, scalar, reduction, matrix-vector, selection, "
     "transposition...) as defined for synthesis and verification computes the operation its name states, on every "
     "well-shaped input.",
     ["inputs"],
     "for every operation and every well-shaped vector, matrix and scalar up to the size bound",
     "The definitions are only used inside end-to-end synthesis.",
     ["metalift/utils/tenspiler/tenspiler_common.py", "llmlift_scripts/dsl.py"],
     [("definitions", "metalift/utils/tenspiler/tenspiler_common.py"), ("LLM-facing definitions", "llmlift_scripts/dsl.py")])
prop("P19", "Every tensor axiom given to the verifier is a true statement",
     "Each axiom supplied to the verifier about tensor operations holds of the definitions of those "
     "operations for all vectors, matrices, scalars and indices, so no false claim can be proved from them.",
     ["inputs"],
     "for every axiom and every value of its quantified variables up to the size bound",
     "Axioms are assumed, never checked.",
     ["metalift/utils/tenspiler/axioms.py", "metalift/utils/tenspiler/tenspiler_common.py"],
     [("axioms", "metalift/utils/tenspiler/axioms.py")])
prop("P20", "Python answers of a language model are read with Python's meaning",
     "When the reader accepts a Python function as a candidate, the expression it produces has the value "
     "the Python function returns (with / read as integer division) for every argument value at which Python raises "
     "no error and computed indices and slice bounds lie in the list; declared types are those of the values; functions handed over "
     "or called are the ones returned, with their arguments in the order of their parameters, also across several functions, several "
     "answers of one run and several runs with different DSLs in one process; ite(c, a, b) in an answer means the conditional; constructs that cannot be represented are rejected.",
     ["inputs", "programs"],
     "for every accepted function over the supported expression language and every argument value",
     "There are no unit tests for the reader.",
     ["llmlift_scripts/parser.py"],
     [("Python-to-expression reader", "llmlift_scripts/parser.py")])
prop("P21", "The block-splitting compiler pass preserves the program",
     "Running the shipped LLVM pass leaves the function's behaviour unchanged and gives every "
     "branch and loop edge the separate block the analysis relies on.",
     ["programs", "inputs"],
     "for every function in the supported control-flow shapes",
     "The pass is only run by end-to-end scripts.",
     ["llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"],
     [("block insertion", "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp")])
prop("P22", "Expressions compare equal exactly when they are the same expression",
     "Expression equality is an equivalence relation that holds between structurally identical expressions "
     "of the same type and never between expressions that can have different values; equal expressions hash "
     "alike; de-duplicating conjunctions and disjunctions keeps their meaning.",
     ["inputs", "programs"],
     "for every pair of expressions and every list of conjuncts",
     "Equality is used implicitly everywhere and tested nowhere.",
     ["metalift/ir.py"],
     [("equality and hashing", "metalift/ir.py Expr.__eq__, Expr.__hash__"),
      ("object sets, conjunction and disjunction helpers", "metalift/ir.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
