"""Runtime verification framework for resippy (see /verif/DESIGN.md)."""
