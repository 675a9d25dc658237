#!/bin/bash
# Builds the harness once to fill the Go build cache; checks rebuild it themselves.
here=$(cd "$(dirname "$0")" && pwd)
exec "$here/run.sh" build
