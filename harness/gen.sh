#!/bin/bash
# Regenerates the table of harnesses used by the replay binary.
cd "$(dirname "$0")" || exit 1
python3 gen.py && python3 places.py || exit 1
{
	printf '// Code generated by gen.sh. DO NOT EDIT.\n\npackage main\n\nimport "verifharness/h"\n\nvar registry = map[string]func(){\n'
	grep -ho '^func C[0-9][0-9]_[A-Za-z0-9_]*()' h/*.go | sed 's/^func //; s/()$//' | sort | while read -r n; do
		printf '\t"%s": h.%s,\n' "$n" "$n"
	done
	echo "}"
} > cmd/replay/registry.go
gofmt -w cmd/replay/registry.go
