#!/usr/bin/env python3
"""Warms the Go build cache: builds every harness once. The checks work without it, only slower."""
import os, shutil, sys, tempfile
import check
from jobs import CHECKS
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for pid, chk in CHECKS.items():
        for job in chk["jobs"]:
            check.build(job, work)
finally:
    shutil.rmtree(work, ignore_errors=True)
