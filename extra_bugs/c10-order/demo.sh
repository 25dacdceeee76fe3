#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
