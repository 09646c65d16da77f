"""The level_note of each check."""
TRACE = ("The abstract specification is model-checked exhaustively within small constants; the real code is bound to it by "
         "validating, with TLC, the recorded traces of spec-generated and random cases (sampled beyond the enumerated bound). ")
NOTES = {}
NOTES["C01"] = TRACE + "Trusted: TLC, the harness's reading of contents through len and get_ref, genericity of VecOption in T."
NOTES["C02"] = TRACE + "Trusted: TLC, counting destructors of the harness's item type, guard zones for memory outside allocations."
NOTES["C03"] = TRACE + "Trusted: TLC, get_ref as the reference reading of the contents before each view."
NOTES["C04"] = TRACE + "Trusted: TLC, Vec-based construction of the operands through several histories, a recording Hasher."
NOTES["C05"] = TRACE + "Trusted: TLC, genericity in the value type."
NOTES["C06"] = NOTES["C05"]
NOTES["C07"] = TRACE + "Trusted: TLC, genericity in the item type; equal items are told apart by a tag the order ignores."
G = ("The definitions are cross-checked and the algorithms' designs model-checked on all small multigraphs; the results of the real "
     "functions on exhaustively enumerated small and on random larger multigraphs are validated against the definitions by TLC. ")
for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"):
    NOTES[p] = G + "Trusted: TLC, the harness's builder of graphs (RampTable push_value / finish_key)."
W = ("The definitions are cross-checked and the algorithm's design model-checked on all small instances; the results of the real function "
     "on enumerated and random larger instances are validated against the definitions by TLC. Trusted: TLC, ")
NOTES["C17"] = W + "the harness's list-backed graph implementation, a step limit standing for non-termination."
NOTES["C18"] = W + "integer weights; total weights below 2^31-1 (the code's own sentinel)."
NOTES["C19"] = W + "integer coordinates scaled by powers of two, distances compared to a thousandth; polygons of the cases are simple and disjoint by construction."
NOTES["C20"] = NOTES["C19"]
NOTES["C21"] = NOTES["C19"] + " Paths within the rounding of their steps count as equally short."
NOTES["C22"] = W + "integer coordinates scaled by powers of two; cases have up to 28 vertices."
NOTES["C23"] = W + ("output rounded to hundredths; a barrier crossing is reported only where it exceeds rounding (sampled curve points); "
                    "tangents and barriers are judged for outputs within 150 units of the origin.")
NOTES["C24"] = W + "roots compared to 3 in 10000; repeated roots only require returned values to be roots; degenerate scales (leading coefficient below 1e-7) are not covered."
NOTES["C25"] = W + "integer, half-integer and eighth values exactly representable in floating point."
NOTES["C26"] = W + "decimals beyond 15 significant digits compared on the first 15; the harness's rendering of tokens."
NOTES["C27"] = W + "the harness's splitting of write_errors output into lines."
NOTES["C28"] = W + "angles in 24ths of a turn, points compared to a thousandth of the ellipse."
