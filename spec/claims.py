_GEN = ("Every listed contract is proved for all values by symbolic execution of the real source plus SMT; contracts the engine "
        "cannot decide are reported as bounded in the evidence and never counted as proved. ")
CLAIMS = {c: _GEN for c in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20".split()}
NOT_APPLICABLE = {}
