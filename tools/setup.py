#!/usr/bin/env python3
"""Checks that the tools the analyses need are present; builds nothing that a check depends on."""
import shutil, sys, os
miss = [t for t in ("clang", "make", "git") if not shutil.which(t)]
if not os.path.exists("/opt/smlnj-boot/amd64/bin/sml"):
    miss.append("/opt/smlnj-boot/amd64/bin/sml")
print("missing: %s" % ", ".join(miss) if miss else "tools present")
sys.exit(1 if miss else 0)
