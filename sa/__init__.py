"""Static analysis of satella: project model, path-sensitive abstract interpreter, rules."""
