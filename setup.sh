#!/bin/bash
# Builds everything once, so that the caches are warm. Every check builds again from /repo's working tree.
cd "$(dirname "$0")" && bash build.sh
