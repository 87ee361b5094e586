#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
timeout 120 node "$here/demo.mjs" > >(tail -n 5) 2>&1
