#!/bin/bash
# nothing has to be prepared: every check dumps, builds and verifies on its own
cd "$(dirname "$0")/.." && mkdir -p build evidence
