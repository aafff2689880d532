#!/bin/sh
# compiler launcher: calls into the scheduler at every memory access
exec "$@" -fsanitize=thread -fno-lto -Wno-tsan
