#!/bin/bash
# check.sh PROPERTY [TIER]: builds the engine when needed, then checks the property.
cd /verif || exit 2
if ! bash /verif/setup.sh >/tmp/.verif-setup.$$ 2>&1; then
	cat /tmp/.verif-setup.$$; exit 2
fi
/bin/rm -f /tmp/.verif-setup.$$
. /opt/vp/env.sh 2>/dev/null
exec /verif/engine/bin/gosym check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
