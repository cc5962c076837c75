#!/bin/bash
# Nothing to build ahead: every check prepares what it needs from /repo.
# Only verify that the interpreter and the libraries are there.
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
python -c 'import numpy, scipy, h5py' && command -v gcc >/dev/null
