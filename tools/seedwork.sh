#!/bin/bash
# fresh scratch copy of /repo in /tmp/seedwork
rm -rf /tmp/seedwork
cp -a /repo /tmp/seedwork
