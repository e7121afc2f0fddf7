#!/bin/bash
# the refactoring edits of one corpus only: dev/newref.sh misc
exec python3 /verif/dev/refrun.py $(python3 -c "
d={};exec(open('/verif/dev/refactors/$1.py').read(),d)
print(' '.join('^'+r[0]+'\$' for r in d['R']))") "${@:2}"
