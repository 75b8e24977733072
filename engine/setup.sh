#!/bin/bash
# builds the exporter and warms the fact cache (every check also does this on demand)
cd "$(dirname "$0")" && exec python3 facts.py utils decoder mteval training word-aligner extractor klm
