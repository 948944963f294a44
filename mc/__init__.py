"""Bounded exhaustive exploration of causal_effect_bandits."""
