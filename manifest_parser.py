PARS = ["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"]
for c in PARS:
    T[c] = "abstract interpretation of MIR with loop summaries; simulation of every path by a reference transducer of the grammar"
    N[c] = ("Decides the property for all character (token) sequences of any length, on the MIR of the current tree in both precision configurations: "
            "loops are summarised by closed forms, nested entry points by their own specification. Trusts the std models, fewer than 2^63 characters, real arithmetic for floats. "
            "A construct or loop outside the model is reported as UNDECIDED, never as a violation; a violation comes with the path and its conditions.")
T["C01"] = "abstract interpretation of MIR: reachability of panicking constructs under path facts and loop invariants"
T["C02"] = "abstract interpretation of MIR: ranking cursor per loop alternative, counter bound per recursive call"
NA["C34"] = ("an error bound depends on magnitudes and condition of operands, which nothing in the code limits: interval and affine error analyses give an infinite bound; "
             "the other properties are decided in exact arithmetic instead")
for c in ("C11", "C12"):
    N[c] += " Characters that are letters and numerals at once (U+2167 and the like: Roman numerals) are outside the claim: the two lexical rules overlap there."
