NOTES[""] = ("The specification is model-checked exhaustively within small constants; the code is bound to it by validating "
  "recorded executions (seeded random plus TLC-enumerated ones), so code behaviour outside the explored inputs is not covered. "
  "Trusts TLC, the recorder in harness/ and the Rust standard library.")
