#!/usr/bin/env python3
"""Builds everything once, so that a first check need not."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

common.build_rt()
common.build_wasm()
common.build_cli()
common.build_fault()
common.build_sanitized("thread")
common.build_sanitized("address")
