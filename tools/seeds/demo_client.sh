#!/bin/bash
# Runs main.js beside this file on the client's sources in /repo.
here=$(cd "$(dirname "$0")" && pwd)
timeout 100 node "$here/main.js"
