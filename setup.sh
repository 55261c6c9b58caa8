#!/bin/bash
# unpacks Hypothesis from the offline wheelhouse into .deps
cd "$(dirname "${BASH_SOURCE[0]}")" && exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True
from vlib import boot; boot.ensure_deps(); import hypothesis; print('hypothesis', hypothesis.__version__)"
