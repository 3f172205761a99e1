#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build_engine
