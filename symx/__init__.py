"""symx: a small symbolic executor for the simulator's Python code (see DESIGN.md)."""
