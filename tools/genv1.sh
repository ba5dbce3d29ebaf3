#!/bin/bash
# The role and registry harnesses are the same for the root package and v1.
cd "$(dirname "$0")/../harness" || exit 1
for f in roles registry; do
  sed -e 's#lib "github.com/oarkflow/permission"#lib "github.com/oarkflow/permission/v1"#' -e 's/AddDescendant(/AddDescendent(/g' hroot/$f.go > hv1/$f.go
done
