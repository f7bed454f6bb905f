#!/bin/bash
# Offline, idempotent: exposes hypothesis/scipy (pre-installed tooling venv, same CPython 3.12) to /opt/venv's
# interpreter through a private directory of symlinks; nothing outside /verif is written.
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python vp/bootstrap.py && /opt/venv/bin/python vp/main.py --selftest
