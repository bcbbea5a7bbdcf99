"""Runtime-monitoring machinery for pycba (see DESIGN.md)."""
