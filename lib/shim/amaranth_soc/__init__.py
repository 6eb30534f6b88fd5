"""Offline stand-in for the parts of amaranth-soc that cr1901/sentinel uses.

amaranth-soc is not installed in the sandbox and cannot be fetched.  The CPU
core only needs `wishbone.Signature`, i.e. the *shape* of a Wishbone port.
This stand-in is part of the trusted base of the framework (see DESIGN.md).
"""
