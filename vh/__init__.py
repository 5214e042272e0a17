"""Shared harness of the runtime-monitoring checks (see DESIGN.md)."""
