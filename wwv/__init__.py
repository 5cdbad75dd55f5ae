"""Property-based verification of pyensemble/wildwood (see /verif/DESIGN.md)."""
