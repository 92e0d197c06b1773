#!/bin/bash
# Unpacks hypothesis from the offline wheelhouse into /verif/.deps (git-ignored). Checks fall back to a private copy without it.
cd "$(dirname "$0")/.." && exec /opt/venv/bin/python -c "
from pv import boot
boot.install_deps(boot.DEPS)"
