#!/bin/bash
# Builds the driver and the TLC overrides from the committed files and /repo.
cd "$(dirname "$0")" && exec python3 -c "import vlib; vlib.build(); vlib.build(bin=\"derive_driver\")"
