#!/usr/bin/env python3
"""Builds the analyser from the committed sources."""
import lib
lib.build_engine()
print('analyser built: ' + lib.CTA)
