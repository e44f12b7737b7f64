#!/bin/bash
# builds the harness once, so that the checks only rebuild what changed
cd "$(dirname "$0")" && exec ./build.sh
