"""Path-partitioned abstract interpreter for the pyswagger sources (see DESIGN.md)."""
