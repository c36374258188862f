#!/usr/bin/env python3
"""Builds the conformance harness once, so that the checks only rebuild what changed."""
import shutil, sys, tempfile
import check
work = tempfile.mkdtemp(prefix="kuba-setup-")
try:
    for name in ("conf", "viz"):
        check.build_driver(work, name)
finally:
    shutil.rmtree(work, ignore_errors=True)
