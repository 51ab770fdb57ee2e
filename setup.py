#!/usr/bin/env python3
"""Builds the symbolic executor from the committed files (checks rebuild it themselves when it is missing)."""
import check
check.os.makedirs(check.BUILD, exist_ok=True)
print(check.build_engine())
