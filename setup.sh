#!/bin/bash
# One-off build of everything from the committed files.
cd "$(dirname "$0")" && exec bash ./build.sh all
