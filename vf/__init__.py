"""Runtime-monitoring harness for gemd-python."""
