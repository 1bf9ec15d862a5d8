"""Contracts: what the program generated for a board has to say, puzzle type by puzzle type."""
