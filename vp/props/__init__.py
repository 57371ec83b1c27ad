"""Property-based testing framework for cognitivefactory/interactive-clustering."""
