#!/bin/bash
# Builds both forms of the simulator; the checks rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/check.sh" build && bash "$here/check.sh" Pbuild
