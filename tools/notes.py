DEFAULT = ("Every path of every harness function is executed symbolically on the LLVM IR compiled from the current headers; each assertion is decided for "
  "all values by exact polynomial normal form or z3. Assumes exact real arithmetic for the h_/t_ harnesses (rounding, overflow, NaN outside) and IEEE-754 for the f_ harnesses; "
  "undecided obligations are reported as INCONCLUSIVE, never as success. Counterexamples are replayed on natively compiled code before they count.")
REASONS = {}
