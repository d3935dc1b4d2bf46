#!/bin/bash
# check.sh ID: decides property ID on /repo's working tree (tier from VERIF_TIER, default quick).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
[ -x bin/vengine ] || bash ./build.sh >&2 || exit 2
exec bin/vengine check -prop "$1"
