NA=[
 dict(property="C90",reason="Whether the call stack or memory suffices depends on run-time sizes and interpreter limits; the recursion per nibble is visible in the code, but no static bound on the sizes of keys exists."),
 dict(property="C91",reason="The package has no locks or other synchronisation and documents no thread safety; there is no rule in the code that a static analysis could check, and the statement is false by design."),
 dict(property="C92",reason="A statement about adversaries and about pycryptodome and pysha3, outside this source; the checks of C25-C33 assume it."),
 dict(property="C93",reason="A statement about probabilities and clock resolution, not about the shape of the code."),
]
