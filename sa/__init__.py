"""Repository-specific static analyser for SimCATS (abstract interpretation over the Python syntax tree)."""
