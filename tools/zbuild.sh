#!/bin/bash
# zbuild.sh <repo copy> [s3]: builds z5py from another working tree, prints the directory for PYEXT
cd /verif; python3 -c "
import sys; sys.path.insert(0,'/verif'); import check
check.REPO='$1'; check.CXX=[x.replace('/repo/','$1/') for x in check.CXX]; check.BUILD='/tmp/zbuild'; print(check.build_py(${2:+True}))"
