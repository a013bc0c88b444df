"""popsynth static analysis: value-flow (gated SSA / global value numbering) based checkers."""
