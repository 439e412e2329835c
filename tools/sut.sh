#!/bin/bash
# sut.sh DIR: copies /repo to DIR/repo and the test driver to DIR/driver
set -e
d=${1:?}
mkdir -p "$d"
git -C /repo archive --prefix=repo/ HEAD | tar x -C "$d"
cp -r /opt/vp/driver "$d/driver"; cp -r /opt/vp/keys "$d/keys"
sed -i "s#'/repo'#'$d/repo'#" "$d"/driver/*.py
