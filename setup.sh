#!/bin/bash
# builds the verifier once (checks build it again: nothing is kept between runs)
. /opt/vp/env.sh
cd "$(dirname "$0")/sortyvc" && go build -o /dev/null . && z3 --version && z3-new --version
