#!/bin/bash
# Exit 0 if the property holds for the inputs of demo.py.  Run in the repository.
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py" > /dev/null
