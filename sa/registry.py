CHECKS = {}
COMMON = [
    "Nothing from the repository is executed: the source of cuprates_transport is parsed on every run and interpreted over abstract values (normal-form terms x array shape x unit x dependence set x object identity).",
    "External libraries (numpy, scipy, sympy, scikit-image, numba, lmfit, multiprocessing, matplotlib) are represented by hand-written transfer functions in /verif/sa/ext*.py.",
    "Distinct symbolic inputs are generically unequal; equal terms are recognised by normal form, unequal ones are reported only when their normal forms are separated; anything else counts as undecided and raises no alarm.",
]


def check(pid, explanation, assumptions=(), floor=1):
    def deco(fn):
        CHECKS[pid] = {"fn": fn, "explanation": explanation, "assumptions": list(assumptions), "floor": floor}
        return fn
    return deco


import rules_state   # noqa: E402,F401
import rules_hist   # noqa: E402,F401
import rules_phys   # noqa: E402,F401
import rules_phys2   # noqa: E402,F401
import rules_fit   # noqa: E402,F401
import rules_lint   # noqa: E402,F401
