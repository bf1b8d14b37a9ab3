#!/bin/bash
exec bash "$(dirname "$0")/build_all.sh"
