#!/bin/bash
# one line per violation kind
/opt/venv/bin/python tools/triage.py "$@" 2>&1 | grep -E "^[0-9]+ " | cut -c1-${W:-230}
