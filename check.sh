#!/bin/bash
# bash check.sh <property id> [quick|thorough]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYGAME_HIDE_SUPPORT_PROMPT=1 SDL_VIDEODRIVER=dummy OPENBLAS_NUM_THREADS=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -m fsv.run "$@"
