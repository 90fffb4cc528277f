#!/bin/bash
# fresh scratch copy of /repo's HEAD in /tmp/wt
git -C /repo worktree prune
rm -rf /tmp/wt && git clone -q /repo /tmp/wt
