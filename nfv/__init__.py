"""Runtime-monitoring framework for tryolabs/norfair (see DESIGN.md)."""
