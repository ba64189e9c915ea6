"Deterministic simulation of strong_typing with fault injection."
