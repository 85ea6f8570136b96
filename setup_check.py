#!/usr/bin/env python3
"""Builds the executor once and checks that the toolchain is there."""
import os
import check

os.makedirs(check.B, exist_ok=True)
check.build_std()
print("built", check.build_engine())
