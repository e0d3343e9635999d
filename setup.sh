#!/bin/sh
# builds the fact extractor and warms the per-translation-unit cache (both under build/, not committed)
cd "$(dirname "$0")" && exec python3 vlib/facts.py
