#!/bin/bash
# bring fix commits prepared in the scratch clone into /repo
git -C /repo status --short | grep -v '^??' && exit 1
git -C /repo pull -q --ff-only /tmp/wr "$(git -C /tmp/wr rev-parse --abbrev-ref HEAD)" && git -C /repo log --oneline | head -3
