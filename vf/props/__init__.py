"""Property monitors."""
