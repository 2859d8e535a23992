#!/bin/bash
# Nothing to install: every check builds what it needs.  Make sure it can.
cd "$(dirname "$0")/.." && python3 check.py --setup
