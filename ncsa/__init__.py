"""ncsa: static value-flow analysis of the NeuralCompression sources (never imports or runs them)."""
