#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 1
. "$here/tools/build.sh"
build default && build targets
