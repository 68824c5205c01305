#!/bin/bash
# copies the verified tree (git HEAD of /repo) into ref/, under another module name
cd "$(dirname "$0")" || exit 1
rm -rf /verif/replay/ref
mkdir ref
git -C /repo archive HEAD | tar x -C ref --exclude='*_test.go' --exclude=autoload --exclude='go/_test' --exclude='go/*.vim' --exclude='test/*.ok' --exclude='test/run*' --exclude='go/*.sh' --exclude='test/node_position' --exclude='.*'
grep -rl 'github.com/vim-jp/go-vimlparser' ref --include='*.go' --include=go.mod | xargs sed -i 's#github.com/vim-jp/go-vimlparser#ref.local/vp#g'
find ref -name '*.mkd' -delete
cd ref/test && mkdir -p ../corpus && mv *.vim ../corpus/ 
cd .. && rm -rf /verif/replay/ref/test
ls corpus | wc -l
