"""pyvc: a contract-based deductive verifier for the Python of /repo (see DESIGN.md)."""
