#!/bin/bash
# run.sh PROPERTY: decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
if [ ! -x bin/nav ] || [ -n "$(find checker -newer bin/nav -print -quit)" ]; then
	bash setup.sh || exit 2
fi
exec bin/nav "$@"
