"""Repo-specific static analysis engine (no code under test is ever run)."""
