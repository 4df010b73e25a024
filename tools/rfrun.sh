#!/bin/bash
# run contracts over all refactored trees
for d in /tmp/rfc/*; do echo "$(basename $d): $(/tmp/mc -repo $d -contracts "${1:-*}" 2>&1 | tee /tmp/rfo-$(basename $d).txt | tail -1)"; done
