"""Builds the syntax-tree dumper (everything else is interpreted)."""
import load
print("dumper:", load.build_dumper())
