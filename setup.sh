#!/bin/bash
# Builds the framework from the committed files, offline.
exec bash "$(dirname "$0")/build.sh"
