"""Does a real solver accept the printed SMT text (sorts, arities, symbols)?"""
import os
import shutil
import subprocess

import mlenv

SMTLIB = ("list-axioms.smt", "integer-fn-axioms.smt", "tuples.smt")
DECLS = ("(declare-const x Int)(declare-const y Int)(declare-const z Int)(declare-const b Bool)(declare-const c Bool)"
         "(declare-const l (MLList Int))(declare-const k (MLList Int))(declare-const m (MLList (MLList Int)))"
         "(declare-const n (MLList (MLList Int)))(declare-const s (Set Int))(declare-const r (Set Int))"
         "(declare-const t (Tuple2 Int Int))(declare-const w (Tuple3 Int Bool Int))"
         "(declare-fun userf (Int (MLList Int)) Int)(declare-fun usert (Int Int) (Tuple2 Int Int))"
         "(declare-fun usert3 (Int Bool) (Tuple3 Int Bool Int))(declare-fun inv0 (Int Int) Bool)"
         "(declare-fun ps0 (Int Int) Bool)(declare-fun fnv (Int) Int)")


def accepted(ck, texts, what="prints"):
    """texts: [(key, description, smt term)]; one cvc5 parse per batch, bisecting on errors."""
    if not texts or not shutil.which("cvc5"):
        return
    lib = "".join(open(os.path.join(mlenv.REPO, "metalift", "utils", f)).read() for f in SMTLIB)
    p = os.path.join(mlenv.scratch(), f"t{os.getpid()}.smt2")

    def ask(group):
        open(p, "w").write("(set-logic ALL)\n" + lib + DECLS +
                           "".join(f"\n(define-fun chk{i} () Bool (= {t} {t}))" for i, (_, _, t) in enumerate(group)))
        r = subprocess.run(["cvc5", "--lang=smt2", "--parse-only", p], capture_output=True, text=True)
        ck.count("cvc5 parse queries")
        return (r.stdout + r.stderr) if "rror" in r.stdout + r.stderr else ""

    def bisect(group):
        err = ask(group)
        if not err or ck.enough(20):
            return
        if len(group) == 1:
            ck.obligation()
            key, d, t = group[0]
            ck.violation(f"smt:{key}", f"{d} {what} {t}, which cvc5 rejects: {err.strip()[:200]}",
                         {"expr": d, "smt": t, "cvc5": err.strip()[:400]})
            return
        h = len(group) // 2
        bisect(group[:h])
        bisect(group[h:])

    ck.count("terms parsed by cvc5", len(texts))
    ck.obligation()
    bisect(texts)
