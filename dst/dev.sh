#!/bin/bash
# dev helper: list violating classes/messages without minimising
cd "$(dirname "$0")/.." && exec /opt/venv/bin/python dst/devlist.py "$@"
