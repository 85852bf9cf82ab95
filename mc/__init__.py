"""Bounded exhaustive exploration of goats against boring reference models."""
