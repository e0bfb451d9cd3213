#!/bin/bash
# builds the simulator once; every check rebuilds what has changed
cd "$(dirname "$0")" && exec bash ./build.sh
