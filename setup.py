#!/usr/bin/env python3
"""Builds the conformance harness once (every check builds again by itself)."""
import vlib
print("harness built in %.1f s" % vlib.build()[1])
