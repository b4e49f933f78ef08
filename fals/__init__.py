"""Bounded falsifiers: oracles and generators that exercise the real code (never counted as proof)."""
