#!/bin/bash
cd "$(dirname "$0")" && python3 gen_properties.py && python3 gen_manifest.py && python3 gen_design.py
