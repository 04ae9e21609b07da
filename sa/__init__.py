"""Abstract interpreter and checks for python-sqlpuzzle (static analysis)."""
